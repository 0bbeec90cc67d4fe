//! Runs of the real command in a scratch directory: its file operations are observed and decided by
//! the preloaded library, its terminal is a pseudo terminal.

use crate::explore::{count, Ex, Res};
use crate::p_fs::Dir;
use crate::viol;
use std::collections::BTreeMap;
use std::io::{Read, Write};
use std::os::fd::{AsRawFd, FromRawFd};
use std::os::unix::ffi::OsStrExt;
use std::os::unix::process::{CommandExt, ExitStatusExt};
use std::path::{Path, PathBuf};
use std::process::{Command, Stdio};
use std::sync::{Mutex, Once};
use std::time::{Duration, Instant};

#[derive(Clone, PartialEq, Eq)]
pub enum Node {
    File(Vec<u8>),
    Dir,
    Link(String),
}

impl std::fmt::Debug for Node {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        match self {
            Node::File(d) if d.len() > 40 => write!(f, "file of {} bytes", d.len()),
            Node::File(d) => write!(f, "file {:?}", String::from_utf8_lossy(d)),
            Node::Dir => write!(f, "directory"),
            Node::Link(t) => write!(f, "link to {t}"),
        }
    }
}

pub type Tree = BTreeMap<String, Node>;

#[derive(Clone, Debug, Default)]
pub struct Call {
    pub n: u64,
    pub kind: String,
    pub flags: i32,
    pub off: i64,
    pub len: u64,
    pub ret: i64,
    pub errno: i32,
    pub zero: bool,
    pub hash: String,
    pub path: String,
    pub path2: String,
}

impl Call {
    /// may this call change a file or a directory
    pub fn modifies(&self) -> bool {
        match self.kind.as_str() {
            "open" => self.flags & (libc::O_CREAT | libc::O_TRUNC) != 0,
            "write" | "truncate" | "unlink" | "rmdir" | "mkdir" | "rename" | "link" | "symlink" | "chmod" | "copy" => true,
            _ => false,
        }
    }
}

#[derive(Clone, Default)]
pub struct Run {
    pub args: Vec<String>,
    pub stdin: Option<Vec<u8>>,
    pub env: Vec<(String, std::ffi::OsString)>,
    /// what is typed at the terminal; without one there is none
    pub tty: Option<Vec<u8>>,
    /// the terminal shows what is typed, and it is typed once it doesn't
    pub echo: bool,
    /// number of the call and what happens at it
    pub fault: Option<(u64, String)>,
    pub cwd: Option<String>,
    /// at most so many bytes by one call, and every n-th transfer is interrupted first
    pub pieces: Option<(u64, u64)>,
    /// how many files it may have open
    pub nofile: Option<u64>,
    pub log: bool,
    /// tells apart commands that run at the same time
    pub tag: &'static str,
    /// number of the call before which it stops until told to go on (see `together`)
    pub stop: Option<u64>,
}

#[derive(Debug, Default)]
pub struct Done {
    pub code: Option<i32>,
    pub signal: Option<i32>,
    pub out: String,
    pub err: String,
    pub tty: String,
    pub log: Vec<Call>,
    pub hung: bool,
}

impl Done {
    pub fn ok(&self) -> bool {
        self.code == Some(0)
    }

    pub fn short(&self) -> String {
        let cut = |s: &str| s.chars().take(300).collect::<String>();
        format!("exit {:?} signal {:?} stdout {:?} stderr {:?}", self.code, self.signal, cut(&self.out), cut(&self.err))
    }

    /// It ended by itself: with success, or with an error and a message.
    pub fn judge(&self) -> Res<()> {
        if self.hung {
            viol!("the command doesn't end: {}", self.short());
        }
        if let Some(s) = self.signal {
            viol!("the command ended by signal {s}: {}", self.short());
        }
        if self.err.contains("panicked at") || self.code == Some(101) {
            viol!("the command crashed: {}", self.short());
        }
        if !self.ok() && self.err.trim().is_empty() {
            viol!("the command failed without a message: {}", self.short());
        }
        Ok(())
    }
}

pub fn run(args: &[&str]) -> Run {
    Run { args: args.iter().map(|s| s.to_string()).collect(), ..Run::default() }
}

impl Run {
    pub fn key(mut self, k: &str) -> Run {
        self.env.push(("VOLARIS_KEY".into(), k.into()));
        self
    }
    pub fn stdin(mut self, s: &[u8]) -> Run {
        self.stdin = Some(s.to_vec());
        self
    }
    pub fn tty(mut self, s: &[u8]) -> Run {
        self.tty = Some(s.to_vec());
        self
    }
    pub fn log(mut self) -> Run {
        self.log = true;
        self
    }
    pub fn fault(mut self, at: u64, act: &str) -> Run {
        self.fault = Some((at, act.into()));
        self
    }
}

static LIVE: Mutex<Vec<(i32, Instant)>> = Mutex::new(vec![]);
const LIMIT: Duration = Duration::from_secs(40);

fn watchdog() {
    static ONCE: Once = Once::new();
    ONCE.call_once(|| {
        std::thread::spawn(|| loop {
            std::thread::sleep(Duration::from_millis(500));
            for (pid, t) in LIVE.lock().unwrap().iter() {
                if t.elapsed() > LIMIT {
                    unsafe { libc::kill(*pid, libc::SIGKILL) };
                }
            }
        });
    });
}

pub struct World {
    dir: Dir,
    pub root: PathBuf,
    pub before: Tree,
}

impl World {
    /// `w` is the working directory, `tmp` the one for temporary files
    pub fn new() -> World {
        let dir = Dir::new();
        let root = dir.0.join("r");
        for d in ["r", "r/w", "r/tmp"] {
            std::fs::create_dir(dir.0.join(d)).unwrap();
        }
        World { dir, root, before: Tree::new() }
    }

    pub fn path(&self, p: &str) -> PathBuf {
        self.root.join("w").join(p)
    }

    pub fn file(&self, p: &str, d: &[u8]) -> &World {
        let q = self.path(p);
        std::fs::create_dir_all(q.parent().unwrap()).unwrap();
        std::fs::write(q, d).unwrap();
        self
    }

    pub fn mkdir(&self, p: &str) -> &World {
        std::fs::create_dir_all(self.path(p)).unwrap();
        self
    }

    pub fn link(&self, p: &str, to: &str) -> &World {
        std::os::unix::fs::symlink(to, self.path(p)).unwrap();
        self
    }

    pub fn tree(&self) -> Tree {
        let mut t = Tree::new();
        scan(&self.root, &self.root, &mut t);
        t
    }

    pub fn get(&self, p: &str) -> Option<Vec<u8>> {
        std::fs::read(self.path(p)).ok()
    }

    pub fn start(&mut self) {
        self.before = self.tree();
    }

    pub fn run(&self, r: &Run) -> Done {
        watchdog();
        count("commands_run", 1);
        let bin = PathBuf::from(std::env::var_os("MC_BIN").expect("MC_BIN"));
        let side = |n: &str| self.dir.0.join(format!("{}{n}", r.tag));
        for n in ["out", "err", "log", "in", "wait.stop", "wait.go"] {
            let _ = std::fs::remove_file(side(n));
        }
        let mut c = Command::new(bin.join("volaris-cli"));
        c.args(&r.args).current_dir(r.cwd.as_ref().map_or(self.root.join("w"), |d| self.path(d)));
        c.env_clear().env("VERIF_MC_FAST_KDF", "1").env("TMPDIR", self.root.join("tmp")).env("PATH", "/usr/bin:/bin").env("HOME", "/nonexistent");
        c.env("LD_PRELOAD", bin.join("libmcshim.so")).env("SHIM_ROOT", &self.root).env("SHIM_SERIAL", "1");
        if r.log {
            c.env("SHIM_LOG", side("log"));
        }
        if let Some((at, act)) = &r.fault {
            c.env("SHIM_AT", at.to_string()).env("SHIM_ACT", act);
        }
        if let Some(at) = r.stop {
            c.env("SHIM_AT", at.to_string()).env("SHIM_ACT", format!("wait:{}", side("wait").display()));
        }
        if let Some((n, i)) = r.pieces {
            c.env("SHIM_EVERY", n.to_string()).env("SHIM_INTR", i.to_string());
        }
        for (k, v) in &r.env {
            c.env(k, v);
        }
        c.stdout(std::fs::File::create(side("out")).unwrap()).stderr(std::fs::File::create(side("err")).unwrap());
        match &r.stdin {
            None => {
                c.stdin(Stdio::null());
            }
            Some(d) => {
                std::fs::write(side("in"), d).unwrap();
                c.stdin(std::fs::File::open(side("in")).unwrap());
            }
        }
        let mut pty = None;
        let mut slave = -1;
        if let Some(typed) = &r.tty {
            let (m, s) = open_pty();
            if !r.echo {
                echo(&s, Some(false));
                (&m).write_all(typed).unwrap();
            }
            slave = s.as_raw_fd();
            pty = Some((m, s));
        }
        let nofile = r.nofile;
        unsafe {
            c.pre_exec(move || {
                libc::setsid();
                if let Some(n) = nofile {
                    let l = libc::rlimit { rlim_cur: n, rlim_max: n };
                    if libc::setrlimit(libc::RLIMIT_NOFILE, &l) != 0 {
                        return Err(std::io::Error::last_os_error());
                    }
                }
                if slave >= 0 && libc::ioctl(slave, libc::TIOCSCTTY, 0) != 0 {
                    return Err(std::io::Error::last_os_error());
                }
                Ok(())
            });
        }
        let mut ch = c.spawn().expect("starting the command");
        let pid = ch.id() as i32;
        LIVE.lock().unwrap().push((pid, Instant::now()));
        let reader = pty.as_ref().map(|(m, _)| {
            let mut m = m.try_clone().unwrap();
            std::thread::spawn(move || {
                let mut v = vec![];
                let mut b = [0u8; 4096];
                while let Ok(n) = m.read(&mut b) {
                    if n == 0 {
                        break;
                    }
                    v.extend(&b[..n]);
                }
                v
            })
        });
        if let (true, Some(typed), Some((m, s))) = (r.echo, &r.tty, &pty) {
            // whoever asks for a password hides what is typed
            let t = Instant::now();
            while echo(s, None) && t.elapsed() < Duration::from_secs(10) && !matches!(ch.try_wait(), Ok(Some(_))) {
                std::thread::sleep(Duration::from_millis(2));
            }
            let mut m = m;
            m.write_all(typed).unwrap();
        }
        let st = ch.wait().expect("waiting for the command");
        let hung = {
            let mut l = LIVE.lock().unwrap();
            let i = l.iter().position(|x| x.0 == pid).unwrap();
            l.swap_remove(i).1.elapsed() > LIMIT
        };
        drop(pty);
        let tty = reader.map(|h| String::from_utf8_lossy(&h.join().unwrap()).into_owned()).unwrap_or_default();
        let text = |n: &str| String::from_utf8_lossy(&std::fs::read(side(n)).unwrap_or_default()).into_owned();
        Done { code: st.code(), signal: st.signal(), out: text("out"), err: text("err"), tty, log: parse(&text("log"), &self.root), hung }
    }
}

impl World {
    /// The first command runs up to its call number `n`, then the second one up to its call number
    /// `m` (or to its end), then the first one to its end, then what is left of the second one.
    pub fn together(&self, a: &Run, n: u64, b: &Run, m: Option<u64>) -> (Done, Done) {
        let (mut a, mut b) = (a.clone(), b.clone());
        (a.tag, a.stop, b.tag, b.stop) = ("a-", Some(n), "b-", m);
        let side = |f: &str| self.dir.0.join(f);
        for f in ["a-wait.stop", "b-wait.stop"] {
            let _ = std::fs::remove_file(side(f));
        }
        let pause = Duration::from_micros(200);
        std::thread::scope(|s| {
            let ha = s.spawn(|| self.run(&a));
            while !side("a-wait.stop").exists() && !ha.is_finished() {
                std::thread::sleep(pause);
            }
            let hb = s.spawn(|| self.run(&b));
            while !side("b-wait.stop").exists() && !hb.is_finished() {
                std::thread::sleep(pause);
            }
            std::fs::write(side("a-wait.go"), b"").unwrap();
            let da = ha.join().unwrap();
            std::fs::write(side("b-wait.go"), b"").unwrap();
            (da, hb.join().unwrap())
        })
    }
}

/// Does it show what is typed? (and make it so)
fn echo(tty: &std::fs::File, set: Option<bool>) -> bool {
    unsafe {
        let mut t: libc::termios = std::mem::zeroed();
        assert!(libc::tcgetattr(tty.as_raw_fd(), &mut t) == 0);
        if let Some(on) = set {
            if on {
                t.c_lflag |= libc::ECHO;
            } else {
                t.c_lflag &= !libc::ECHO;
            }
            assert!(libc::tcsetattr(tty.as_raw_fd(), libc::TCSANOW, &t) == 0);
        }
        t.c_lflag & libc::ECHO != 0
    }
}

fn open_pty() -> (std::fs::File, std::fs::File) {
    unsafe {
        let m = libc::posix_openpt(libc::O_RDWR | libc::O_NOCTTY | libc::O_CLOEXEC);
        assert!(m >= 0, "no pseudo terminal");
        assert!(libc::grantpt(m) == 0 && libc::unlockpt(m) == 0, "no pseudo terminal");
        let mut name = [0 as libc::c_char; 64];
        assert!(libc::ptsname_r(m, name.as_mut_ptr(), 64) == 0);
        let s = libc::open(name.as_ptr(), libc::O_RDWR | libc::O_NOCTTY | libc::O_CLOEXEC);
        assert!(s >= 0, "no pseudo terminal");
        (std::fs::File::from_raw_fd(m), std::fs::File::from_raw_fd(s))
    }
}

fn scan(at: &Path, root: &Path, t: &mut Tree) {
    let Ok(l) = std::fs::read_dir(at) else { return };
    for e in l {
        let p = e.unwrap().path();
        let name = String::from_utf8_lossy(p.strip_prefix(root).unwrap().as_os_str().as_bytes()).into_owned();
        let m = std::fs::symlink_metadata(&p).unwrap();
        if m.is_dir() {
            t.insert(name, Node::Dir);
            scan(&p, root, t);
        } else if m.is_symlink() {
            t.insert(name, Node::Link(std::fs::read_link(&p).unwrap().to_string_lossy().into_owned()));
        } else {
            t.insert(name, Node::File(std::fs::read(&p).unwrap_or_else(|_| b"<unreadable>".to_vec())));
        }
    }
}

fn parse(log: &str, root: &Path) -> Vec<Call> {
    let root = root.to_string_lossy().into_owned();
    let name = |s: &str| s.strip_prefix(&root).map_or(s.to_string(), |r| r.trim_start_matches('/').to_string());
    log.lines()
        .filter_map(|l| {
            let f: Vec<&str> = l.split(' ').collect();
            (f.len() == 12).then(|| Call {
                n: f[0].parse().unwrap(),
                kind: f[1].into(),
                flags: f[3].parse().unwrap(),
                off: f[4].parse().unwrap(),
                len: f[5].parse().unwrap(),
                ret: f[6].parse().unwrap(),
                errno: f[7].parse().unwrap(),
                zero: f[8] == "1",
                hash: f[9].into(),
                path: name(f[10]),
                path2: name(f[11]),
            })
        })
        .collect()
}

/// What differs, by name
pub fn diff(a: &Tree, b: &Tree) -> BTreeMap<String, (Option<Node>, Option<Node>)> {
    let mut d = BTreeMap::new();
    for k in a.keys().chain(b.keys()) {
        if a.get(k) != b.get(k) {
            d.insert(k.clone(), (a.get(k).cloned(), b.get(k).cloned()));
        }
    }
    d
}

/// A choice among values
pub fn one<'a, T: std::fmt::Debug>(ex: &Ex, label: &str, of: &'a [T]) -> &'a T {
    &of[ex.pick(label, of.len() as u32) as usize]
}
