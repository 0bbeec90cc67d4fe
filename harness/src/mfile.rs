//! Model streams: an in-memory file whose every call is an environment choice of the explorer.

use crate::explore::Ex;
use std::io::{Error, ErrorKind, Read, Result, Seek, SeekFrom, Write};
use std::sync::{Arc, Mutex};

#[derive(Clone, Debug, PartialEq, Eq)]
pub enum Op {
    Read { off: u64, want: usize, got: usize },
    Write { off: u64, data: Vec<u8> },
    WriteLen { off: u64, len: usize },
    Seek { to: u64 },
    Flush,
    Fault(&'static str),
    Mark(String),
}

#[derive(Default)]
pub struct Node {
    pub data: Vec<u8>,
    pub log: Vec<Op>,
    /// log written bytes in full
    pub log_data: bool,
    /// number of write calls that changed something
    pub writes: usize,
}

pub type Shared = Arc<Mutex<Node>>;

pub fn node(data: Vec<u8>) -> Shared {
    Arc::new(Mutex::new(Node { data, ..Default::default() }))
}

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Policy {
    /// every call transfers everything
    Full,
    /// every call transfers at most this many bytes
    AtMost(usize),
    /// as AtMost, and every other call is interrupted first
    Interrupted(usize),
    /// transfers alternate between one byte and everything
    Ragged,
    /// the explorer chooses how much each call transfers, or interrupts it
    Choose,
    /// the explorer chooses which call fails
    Fault,
    /// both
    ChooseAndFault,
}

/// What happened in a model file system, over all files and threads.
#[derive(Clone, Debug, PartialEq, Eq)]
pub enum Ev {
    Create { ino: u64, path: String },
    Open { ino: u64, path: String, write: bool },
    Truncate { ino: u64, to: usize },
    Read { ino: u64, off: u64, len: usize },
    Write { ino: u64, off: u64, data: Vec<u8> },
    Flush { ino: u64 },
    Unlink { ino: u64, path: String },
    Mkdir { path: String },
    Rmdir { path: String },
    /// a call that was made to fail
    Fault { what: String },
    /// a call that failed by itself
    Refused { what: String },
    /// any other call that changes something
    Other { what: String },
    Mark(String),
}

pub type Log = Arc<Mutex<Vec<Ev>>>;

pub struct MFile {
    pub node: Shared,
    pub pos: u64,
    pub ex: Ex,
    pub policy: Policy,
    pub name: String,
    pub readable: bool,
    pub writable: bool,
    pub ino: u64,
    pub sink: Option<Log>,
    pub calls: u64,
    interrupted: bool,
    /// all further calls fail (a device that is gone)
    pub sticky: bool,
    pub failed: bool,
}

impl MFile {
    pub fn new(ex: &Ex, node: &Shared, name: &str, policy: Policy) -> MFile {
        MFile {
            node: node.clone(),
            pos: 0,
            ex: ex.clone(),
            policy,
            name: name.to_string(),
            readable: true,
            writable: true,
            ino: 0,
            sink: None,
            calls: 0,
            interrupted: false,
            sticky: false,
            failed: false,
        }
    }

    fn ev(&self, e: impl FnOnce() -> Ev) {
        if let Some(s) = &self.sink {
            s.lock().unwrap().push(e());
        }
    }

    fn fails(&self) -> bool {
        matches!(self.policy, Policy::Fault | Policy::ChooseAndFault)
    }

    fn fault(&mut self, what: &'static str, kinds: u32) -> Option<u32> {
        crate::sched::point(what);
        self.ex.tick();
        self.calls += 1;
        if self.failed && self.sticky {
            return Some(1);
        }
        if !self.fails() {
            return None;
        }
        let c = self.ex.choose(&format!("{}.{what}#{}", self.name, self.calls), kinds + 1);
        if c == 0 {
            return None;
        }
        self.failed = true;
        self.node.lock().unwrap().log.push(Op::Fault(what));
        self.ev(|| Ev::Fault { what: format!("{}.{what}", self.name) });
        self.ex.note(format!("{}.{what} call {} fails (kind {c})", self.name, self.calls));
        Some(c)
    }

    /// how many of n bytes this call transfers
    fn part(&mut self, what: &'static str, n: usize) -> Result<usize> {
        if n == 0 {
            return Ok(0);
        }
        match self.policy {
            Policy::Full | Policy::Fault => Ok(n),
            Policy::AtMost(k) => Ok(n.min(k)),
            Policy::Interrupted(k) => {
                self.interrupted = !self.interrupted;
                if self.interrupted {
                    return Err(ErrorKind::Interrupted.into());
                }
                Ok(n.min(k))
            }
            Policy::Ragged => {
                self.interrupted = !self.interrupted;
                Ok(if self.interrupted { 1 } else { n })
            }
            Policy::Choose | Policy::ChooseAndFault => {
                // distinct amounts, plus an interruption
                let mut menu = vec![n];
                for m in [1, n / 2, n - 1] {
                    if m > 0 && !menu.contains(&m) {
                        menu.push(m);
                    }
                }
                let c = self.ex.choose(&format!("{}.{what}#{} {n}", self.name, self.calls), menu.len() as u32 + 1) as usize;
                if c == menu.len() {
                    self.ex.note(format!("{}.{what} call {} of {n} bytes is interrupted", self.name, self.calls));
                    return Err(ErrorKind::Interrupted.into());
                }
                if c > 0 {
                    self.ex.note(format!("{}.{what} call {} of {n} bytes transfers {}", self.name, self.calls, menu[c]));
                }
                Ok(menu[c])
            }
        }
    }
}

fn eio() -> Error {
    Error::from_raw_os_error(5)
}

impl Read for MFile {
    fn read(&mut self, buf: &mut [u8]) -> Result<usize> {
        if self.fault("read", 1).is_some() {
            return Err(eio());
        }
        if !self.readable {
            return Err(Error::from_raw_os_error(9));
        }
        let avail = {
            let g = self.node.lock().unwrap();
            (g.data.len() as u64).saturating_sub(self.pos).min(buf.len() as u64) as usize
        };
        let n = self.part("read", avail)?;
        let mut g = self.node.lock().unwrap();
        let p = self.pos as usize;
        if n > 0 {
            buf[..n].copy_from_slice(&g.data[p..p + n]);
        }
        g.log.push(Op::Read { off: self.pos, want: buf.len(), got: n });
        drop(g);
        self.ev(|| Ev::Read { ino: self.ino, off: self.pos, len: n });
        self.pos += n as u64;
        Ok(n)
    }
}

impl Write for MFile {
    fn write(&mut self, buf: &[u8]) -> Result<usize> {
        match self.fault("write", 3) {
            Some(1) => return Err(Error::from_raw_os_error(28)),
            Some(2) => return Ok(0),
            Some(_) => {
                // half of the data arrives, then the device is full
                let n = buf.len() / 2;
                let n = n.max(1).min(buf.len());
                self.put(&buf[..n]);
                self.sticky = true;
                return Ok(n);
            }
            None => {}
        }
        if !self.writable {
            return Err(Error::from_raw_os_error(9));
        }
        let n = self.part("write", buf.len())?;
        self.put(&buf[..n]);
        Ok(n)
    }

    fn flush(&mut self) -> Result<()> {
        if self.fault("flush", 1).is_some() {
            return Err(eio());
        }
        self.node.lock().unwrap().log.push(Op::Flush);
        self.ev(|| Ev::Flush { ino: self.ino });
        Ok(())
    }
}

impl MFile {
    fn put(&mut self, buf: &[u8]) {
        let mut g = self.node.lock().unwrap();
        let p = self.pos as usize;
        if buf.is_empty() {
            return;
        }
        if g.data.len() < p + buf.len() {
            g.data.resize(p + buf.len(), 0);
        }
        g.data[p..p + buf.len()].copy_from_slice(buf);
        g.writes += 1;
        let off = self.pos;
        if g.log_data {
            g.log.push(Op::Write { off, data: buf.to_vec() });
        } else {
            g.log.push(Op::WriteLen { off, len: buf.len() });
        }
        drop(g);
        self.ev(|| Ev::Write { ino: self.ino, off, data: buf.to_vec() });
        self.pos += buf.len() as u64;
    }
}

impl Seek for MFile {
    fn seek(&mut self, to: SeekFrom) -> Result<u64> {
        if self.fault("seek", 1).is_some() {
            return Err(eio());
        }
        let len = self.node.lock().unwrap().data.len() as i128;
        let t = match to {
            SeekFrom::Start(n) => n as i128,
            SeekFrom::Current(d) => self.pos as i128 + d as i128,
            SeekFrom::End(d) => len + d as i128,
        };
        if t < 0 {
            return Err(Error::from_raw_os_error(22));
        }
        self.pos = t as u64;
        self.node.lock().unwrap().log.push(Op::Seek { to: self.pos });
        Ok(self.pos)
    }
}
