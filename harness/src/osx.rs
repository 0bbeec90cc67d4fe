//! The real file system below a scratch directory: libc's file operations of the threads of a
//! controlled execution are scheduling points, may be made to fail, and are recorded.

use crate::explore::Ex;
use crate::mfile::{Ev, Log};
use std::ffi::CStr;
use std::os::unix::ffi::OsStrExt;
use std::path::PathBuf;
use std::sync::{Arc, Mutex};

#[repr(C)]
pub struct Op {
    pub kind: libc::c_int,
    pub fd: libc::c_int,
    pub flags: libc::c_int,
    pub off: libc::c_long,
    pub len: libc::c_ulong,
    pub data: *const u8,
    pub path: *const libc::c_char,
    pub path2: *const libc::c_char,
}

extern "C" {
    static mut mc_before: Option<unsafe extern "C" fn(*mut Op) -> libc::c_long>;
    static mut mc_after: Option<unsafe extern "C" fn(*mut Op, libc::c_long, libc::c_int)>;
}

pub const NAMES: [&str; 19] = [
    "?", "open", "read", "write", "seek", "truncate", "sync", "stat", "unlink", "rmdir", "mkdir", "rename", "link", "symlink", "chmod", "opendir", "readdir", "copy", "close",
];

pub struct Os {
    pub ex: Ex,
    /// only what is below counts
    pub root: PathBuf,
    /// operations at which another thread may go on
    pub points: &'static [&'static str],
    /// operations that may fail
    pub faults: &'static [&'static str],
    pub log: Log,
    /// (inode, length) before the running operation of each thread
    pre: Mutex<std::collections::HashMap<std::thread::ThreadId, (u64, u64)>>,
    calls: Mutex<u64>,
}

impl Os {
    pub fn new(ex: &Ex, root: &std::path::Path, points: &'static [&'static str], faults: &'static [&'static str]) -> Arc<Os> {
        static ONCE: std::sync::Once = std::sync::Once::new();
        ONCE.call_once(|| unsafe {
            mc_after = Some(after);
            mc_before = Some(before);
        });
        Arc::new(Os {
            ex: ex.clone(),
            root: root.to_path_buf(),
            points,
            faults,
            log: Arc::new(Mutex::new(vec![])),
            pre: Mutex::new(Default::default()),
            calls: Mutex::new(0),
        })
    }

    fn rel(&self, p: *const libc::c_char) -> Option<String> {
        if p.is_null() {
            return None;
        }
        let b = unsafe { CStr::from_ptr(p) }.to_bytes();
        let r = b.strip_prefix(self.root.as_os_str().as_bytes())?;
        if !(r.is_empty() || r[0] == b'/') {
            return None;
        }
        Some(String::from_utf8_lossy(r.strip_prefix(b"/").unwrap_or(r)).into_owned())
    }

    pub fn events(&self) -> Vec<Ev> {
        self.log.lock().unwrap().clone()
    }
}

fn stat_of(o: &Op) -> (u64, u64) {
    unsafe {
        let mut s: libc::stat64 = std::mem::zeroed();
        let r = if o.fd >= 0 { libc::fstat64(o.fd, &mut s) } else { libc::lstat64(o.path, &mut s) };
        if r == 0 {
            (s.st_ino, s.st_size as u64)
        } else {
            (0, 0)
        }
    }
}

unsafe extern "C" fn before(o: *mut Op) -> libc::c_long {
    let o = &*o;
    let Some(os) = crate::sched::os_of_me() else { return 0 };
    let name = NAMES[o.kind as usize];
    let Some(path) = os.rel(o.path).or_else(|| os.rel(o.path2)) else { return 0 };
    if os.points.contains(&name) {
        crate::sched::point(name);
    }
    if std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| os.ex.tick())).is_err() {
        println!("HANG unreasonably many file operations, at {name} {path}");
        std::process::exit(7);
    }
    if os.faults.contains(&name) {
        let n = {
            let mut c = os.calls.lock().unwrap();
            *c += 1;
            *c
        };
        if crate::sched::ask(|| os.ex.choose(&format!("os.{name}#{n}"), 2)) == 1 {
            os.ex.note(format!("{name} {path} fails"));
            os.log.lock().unwrap().push(Ev::Fault { what: format!("{name} {path}") });
            return libc::EIO as libc::c_long;
        }
    }
    let pre = stat_of(o);
    os.pre.lock().unwrap().insert(std::thread::current().id(), pre);
    0
}

unsafe extern "C" fn after(o: *mut Op, ret: libc::c_long, _err: libc::c_int) {
    let o = &*o;
    let Some(os) = crate::sched::os_of_me() else { return };
    let name = NAMES[o.kind as usize];
    let (Some(path), p2) = (os.rel(o.path), os.rel(o.path2)) else { return };
    let (ino, len) = os.pre.lock().unwrap().get(&std::thread::current().id()).copied().unwrap_or((0, 0));
    let mut evs = vec![];
    if ret < 0 {
        if matches!(name, "open" | "mkdir" | "unlink" | "rmdir" | "rename" | "write" | "truncate") {
            evs.push(Ev::Refused { what: format!("{name} {path}") });
        }
    } else {
        match name {
            "open" => {
                let (now, _) = stat_of(o);
                let write = o.flags & libc::O_ACCMODE != libc::O_RDONLY;
                if ino == 0 && o.flags & libc::O_CREAT != 0 {
                    evs.push(Ev::Create { ino: now, path });
                } else {
                    evs.push(Ev::Open { ino: now, path, write });
                    if o.flags & libc::O_TRUNC != 0 && len > 0 {
                        evs.push(Ev::Truncate { ino: now, to: 0 });
                    }
                }
            }
            "read" => evs.push(Ev::Read { ino, off: o.off as u64, len: ret as usize }),
            "write" => evs.push(Ev::Write {
                ino,
                off: o.off.max(0) as u64,
                data: std::slice::from_raw_parts(o.data, ret as usize).to_vec(),
            }),
            "truncate" => {
                if o.len < len {
                    evs.push(Ev::Truncate { ino, to: o.len as usize });
                }
            }
            "sync" => evs.push(Ev::Flush { ino }),
            "unlink" => evs.push(Ev::Unlink { ino, path }),
            "rmdir" => evs.push(Ev::Rmdir { path }),
            "mkdir" => evs.push(Ev::Mkdir { path }),
            "rename" | "link" | "symlink" | "chmod" => evs.push(Ev::Other { what: format!("{name} {path} {}", p2.unwrap_or_default()) }),
            _ => {}
        }
    }
    os.log.lock().unwrap().extend(evs);
}
