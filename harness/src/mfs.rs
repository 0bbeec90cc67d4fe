//! A model file system behind the `Storage` interface, with the semantics of a POSIX system.
//! `C24` compares it with the real storage, operation by operation.

use crate::explore::Ex;
use crate::mfile::{node, Ev, Log, MFile, Policy, Shared};
use std::collections::BTreeMap;
use std::os::unix::ffi::OsStrExt;
use std::path::{Component, Path, PathBuf};
use std::sync::{Arc, Mutex};
use tools::storage::{Entry, Error, FileMode, Storage};

#[derive(Clone)]
pub enum N {
    File(u64, Shared),
    Dir,
    Link(PathBuf),
}

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Errno {
    NoEnt,
    NotDir,
    IsDir,
    Exist,
    Inval,
    NameTooLong,
    Loop,
    Access,
}

pub struct Inner {
    pub nodes: BTreeMap<PathBuf, N>,
    pub next_ino: u64,
    pub calls: u64,
    /// directories below which nothing may be created or removed, files that may not be opened
    pub denied: Vec<PathBuf>,
}

pub struct Mfs {
    pub inner: Mutex<Inner>,
    pub ex: Ex,
    pub log: Log,
    pub cwd: PathBuf,
    /// storage calls may fail
    pub faults: bool,
    /// how streams behave, by path and whether they write
    pub stream: Box<dyn Fn(&Path, bool) -> Policy + Send + Sync>,
    pub listing_reversed: bool,
}

pub type Snapshot = BTreeMap<String, Option<Vec<u8>>>;

pub fn show_path(p: &Path) -> String {
    p.as_os_str().as_bytes().iter().flat_map(|b| std::ascii::escape_default(*b)).map(char::from).collect()
}

impl Mfs {
    pub fn new(ex: &Ex) -> Mfs {
        let m = Mfs {
            inner: Mutex::new(Inner { nodes: BTreeMap::new(), next_ino: 1, calls: 0, denied: vec![] }),
            ex: ex.clone(),
            log: Arc::new(Mutex::new(vec![])),
            cwd: "/w".into(),
            faults: false,
            stream: Box::new(|_, _| Policy::Full),
            listing_reversed: false,
        };
        m.inner.lock().unwrap().nodes.insert("/".into(), N::Dir);
        m.put_dir("/w");
        m.put_dir(&std::env::temp_dir());
        m
    }

    pub fn put_dir(&self, p: impl AsRef<Path>) {
        let p = self.cwd.join(p);
        let mut g = self.inner.lock().unwrap();
        for a in p.ancestors() {
            g.nodes.entry(a.to_path_buf()).or_insert(N::Dir);
        }
    }

    pub fn put_file(&self, p: impl AsRef<Path>, data: &[u8]) -> Shared {
        let p = self.cwd.join(p);
        self.put_dir(p.parent().unwrap());
        let n = node(data.to_vec());
        let mut g = self.inner.lock().unwrap();
        let ino = g.next_ino;
        g.next_ino += 1;
        g.nodes.insert(p, N::File(ino, n.clone()));
        n
    }

    pub fn put_link(&self, p: impl AsRef<Path>, to: impl AsRef<Path>) {
        let p = self.cwd.join(p);
        self.put_dir(p.parent().unwrap());
        self.inner.lock().unwrap().nodes.insert(p, N::Link(to.as_ref().into()));
    }

    pub fn ev(&self, e: Ev) {
        self.log.lock().unwrap().push(e);
    }

    pub fn events(&self) -> Vec<Ev> {
        self.log.lock().unwrap().clone()
    }

    pub fn ino(&self, p: impl AsRef<Path>) -> Option<u64> {
        let p = self.cwd.join(p);
        match self.inner.lock().unwrap().nodes.get(&p) {
            Some(N::File(i, _)) => Some(*i),
            _ => None,
        }
    }

    pub fn content(&self, p: impl AsRef<Path>) -> Option<Vec<u8>> {
        let p = self.cwd.join(p);
        let n = match self.inner.lock().unwrap().nodes.get(&p) {
            Some(N::File(_, n)) => n.clone(),
            _ => return None,
        };
        let d = n.lock().unwrap().data.clone();
        Some(d)
    }

    /// Everything below a directory (and itself), as absolute path -> content (None: directory).
    pub fn snapshot(&self, below: impl AsRef<Path>) -> Snapshot {
        let below = self.cwd.join(below);
        let g = self.inner.lock().unwrap();
        g.nodes
            .iter()
            .filter(|(p, _)| p.starts_with(&below))
            .map(|(p, n)| {
                (
                    show_path(p),
                    match n {
                        N::File(_, f) => Some(f.lock().unwrap().data.clone()),
                        N::Dir => None,
                        N::Link(t) => Some([b"link to ", t.as_os_str().as_bytes()].concat()),
                    },
                )
            })
            .collect()
    }

    /// The absolute path without links that a path leads to.
    pub fn resolve(&self, g: &Inner, p: &Path, follow: bool, depth: u32) -> Result<PathBuf, Errno> {
        let b = p.as_os_str().as_bytes();
        if b.contains(&0) {
            return Err(Errno::Inval);
        }
        if b.is_empty() {
            return Err(Errno::NoEnt);
        }
        if depth > 40 {
            return Err(Errno::Loop);
        }
        if b.len() > 4095 {
            return Err(Errno::NameTooLong);
        }
        let slash = b.ends_with(b"/") || b.ends_with(b"/.");
        let mut cur = if p.is_absolute() { PathBuf::from("/") } else { self.cwd.clone() };
        let comps: Vec<Component<'_>> = p.components().filter(|c| !matches!(c, Component::RootDir | Component::CurDir | Component::Prefix(_))).collect();
        for (i, c) in comps.iter().enumerate() {
            let last = i + 1 == comps.len();
            match g.nodes.get(&cur) {
                Some(N::Dir) => {}
                Some(_) => return Err(Errno::NotDir),
                None => return Err(Errno::NoEnt),
            }
            match c {
                Component::ParentDir => {
                    cur.pop();
                }
                Component::Normal(n) => {
                    if n.as_bytes().len() > 255 {
                        return Err(Errno::NameTooLong);
                    }
                    let next = cur.join(n);
                    if let Some(N::Link(t)) = g.nodes.get(&next) {
                        if !last || follow || slash {
                            let t = cur.join(t);
                            let rest: PathBuf = comps[i + 1..].iter().collect();
                            let mut full = t.into_os_string();
                            if !rest.as_os_str().is_empty() {
                                full.push("/");
                                full.push(rest);
                            }
                            if slash {
                                full.push("/");
                            }
                            return self.resolve(g, Path::new(&full), follow, depth + 1);
                        }
                    }
                    cur = next;
                }
                _ => unreachable!(),
            }
        }
        if slash && matches!(g.nodes.get(&cur), Some(N::File(..))) {
            return Err(Errno::NotDir);
        }
        if b.ends_with(b"/.") && !g.nodes.contains_key(&cur) {
            return Err(Errno::NoEnt);
        }
        Ok(cur)
    }

    fn denied(g: &Inner, p: &Path) -> bool {
        g.denied.iter().any(|d| p.starts_with(d))
    }

    fn fault(&self, what: &str, p: &Path) -> bool {
        crate::sched::point(what);
        self.ex.tick();
        if !self.faults {
            return false;
        }
        let k = {
            let mut g = self.inner.lock().unwrap();
            g.calls += 1;
            g.calls
        };
        if self.ex.choose(&format!("storage.{what}#{k}"), 2) == 0 {
            return false;
        }
        self.ev(Ev::Fault { what: format!("{what} {}", show_path(p)) });
        self.ex.note(format!("storage call {what} fails"));
        true
    }

    fn handle(&self, p: &Path, ino: u64, n: &Shared, read: bool, write: bool) -> Entry<MFile> {
        let name = p.file_name().map(|n| n.to_string_lossy().into_owned()).unwrap_or_default();
        let name = if p.starts_with(std::env::temp_dir()) { "temp".to_string() } else { name };
        let mut f = MFile::new(&self.ex, n, &name, (self.stream)(p, write));
        f.readable = read;
        f.writable = write;
        f.ino = ino;
        f.sink = Some(self.log.clone());
        Entry::mc_file(p.to_path_buf(), f)
    }

    fn refused<T>(&self, what: &str, p: &Path, e: Error) -> Result<T, Error> {
        self.ev(Ev::Refused { what: format!("{what} {}", show_path(p)) });
        Err(e)
    }

    fn mkdir(&self, p: &Path) -> Result<(), Errno> {
        crate::sched::point("mkdir");
        let mut g = self.inner.lock().unwrap();
        // a trailing slash doesn't follow a link to create its target
        let b = p.as_os_str().as_bytes();
        let plain = b.iter().rposition(|c| *c != b'/').map_or(b, |i| &b[..=i]);
        let r = self.resolve(&g, Path::new(std::ffi::OsStr::from_bytes(plain)), false, 0)?;
        if g.nodes.contains_key(&r) {
            return Err(Errno::Exist);
        }
        match r.parent().map(|d| g.nodes.get(d)) {
            Some(Some(N::Dir)) => {}
            Some(Some(_)) => return Err(Errno::NotDir),
            _ => return Err(Errno::NoEnt),
        }
        if Self::denied(&g, &r) {
            return Err(Errno::Access);
        }
        self.log.lock().unwrap().push(Ev::Mkdir { path: show_path(&r) });
        g.nodes.insert(r, N::Dir);
        Ok(())
    }

    /// The standard library's algorithm; other threads may run between its system calls.
    fn mkdir_all(&self, p: &Path) -> Result<(), Errno> {
        if p.as_os_str().is_empty() {
            return Ok(());
        }
        let is_dir = || {
            crate::sched::point("stat");
            self.is_dir_path(p)
        };
        match self.mkdir(p) {
            Ok(()) => return Ok(()),
            Err(Errno::NoEnt) => {}
            Err(_) if is_dir() => return Ok(()),
            Err(e) => return Err(e),
        }
        match p.parent() {
            Some(d) => self.mkdir_all(d)?,
            None => return Err(Errno::NoEnt),
        }
        match self.mkdir(p) {
            Ok(()) => Ok(()),
            Err(_) if is_dir() => Ok(()),
            Err(e) => Err(e),
        }
    }

    fn open_existing(&self, p: &Path, write: bool, truncate: bool) -> Result<Entry<MFile>, Errno> {
        let mut g = self.inner.lock().unwrap();
        let r = self.resolve(&g, p, true, 0)?;
        if Self::denied(&g, &r) {
            return Err(Errno::Access);
        }
        let (ino, n) = match g.nodes.get_mut(&r) {
            Some(N::File(i, n)) => (*i, n.clone()),
            Some(_) => return Err(Errno::IsDir),
            None => return Err(Errno::NoEnt),
        };
        drop(g);
        self.ev(Ev::Open { ino, path: show_path(&r), write });
        if truncate {
            let len = std::mem::take(&mut n.lock().unwrap().data).len();
            if len > 0 {
                self.ev(Ev::Truncate { ino, to: 0 });
            }
        }
        Ok(self.handle(p, ino, &n, true, write))
    }

    fn is_dir_path(&self, p: &Path) -> bool {
        let g = self.inner.lock().unwrap();
        self.resolve(&g, p, true, 0).ok().is_some_and(|r| matches!(g.nodes.get(&r), Some(N::Dir)))
    }

    fn read_quiet(&self, p: &Path) -> Result<Entry<MFile>, Error> {
        if self.is_dir_path(p) {
            return Ok(Entry::Dir(p.to_path_buf()));
        }
        self.open_existing(p, false, false).map_err(|_| Error::OpenFile(FileMode::Read))
    }
}

impl Storage<MFile> for Mfs {
    fn create_dir_all<P: AsRef<Path>>(&self, path: P) -> Result<(), Error> {
        let p = path.as_ref();
        if self.fault("create_dir_all", p) {
            return Err(Error::CreateDir);
        }
        self.mkdir_all(p).or_else(|_| self.refused("create_dir_all", p, Error::CreateDir))
    }

    fn create_file<P: AsRef<Path>>(&self, path: P) -> Result<Entry<MFile>, Error> {
        let p = path.as_ref();
        if self.fault("create_file", p) {
            return Err(Error::CreateFile);
        }
        let r = (|| {
            let mut g = self.inner.lock().unwrap();
            let r = self.resolve(&g, p, false, 0)?;
            if p.as_os_str().as_bytes().ends_with(b"/") {
                return Err(Errno::IsDir);
            }
            if g.nodes.contains_key(&r) {
                return Err(Errno::Exist);
            }
            match r.parent().map(|d| g.nodes.get(d)) {
                Some(Some(N::Dir)) => {}
                Some(Some(_)) => return Err(Errno::NotDir),
                _ => return Err(Errno::NoEnt),
            }
            if Self::denied(&g, &r) {
                return Err(Errno::Access);
            }
            let ino = g.next_ino;
            g.next_ino += 1;
            let n = node(vec![]);
            g.nodes.insert(r.clone(), N::File(ino, n.clone()));
            Ok((ino, n, r))
        })();
        match r {
            Ok((ino, n, r)) => {
                self.ev(Ev::Create { ino, path: show_path(&r) });
                Ok(self.handle(p, ino, &n, true, true))
            }
            Err(_) => self.refused("create_file", p, Error::CreateFile),
        }
    }

    fn read_file<P: AsRef<Path>>(&self, path: P) -> Result<Entry<MFile>, Error> {
        let p = path.as_ref();
        if self.fault("read_file", p) {
            return Err(Error::OpenFile(FileMode::Read));
        }
        self.read_quiet(p).or_else(|e| self.refused("read_file", p, e))
    }

    fn write_file<P: AsRef<Path>>(&self, path: P) -> Result<Entry<MFile>, Error> {
        let p = path.as_ref();
        if self.fault("write_file", p) {
            return Err(Error::OpenFile(FileMode::Write));
        }
        self.open_existing(p, true, true).or_else(|_| self.refused("write_file", p, Error::OpenFile(FileMode::Write)))
    }

    fn open_file<P: AsRef<Path>>(&self, path: P) -> Result<Entry<MFile>, Error> {
        let p = path.as_ref();
        if self.fault("open_file", p) {
            return Err(Error::OpenFile(FileMode::Write));
        }
        self.open_existing(p, true, false).or_else(|_| self.refused("open_file", p, Error::OpenFile(FileMode::Write)))
    }

    fn flush_file(&self, file: &Entry<MFile>) -> Result<(), Error> {
        use std::io::Write;
        if self.fault("flush_file", file.path()) {
            return Err(Error::FlushFile);
        }
        file.try_writer()?.borrow_mut().flush().map_err(|_| Error::FlushFile)
    }

    fn file_len(&self, file: &Entry<MFile>) -> Result<usize, Error> {
        if self.fault("file_len", file.path()) {
            return Err(Error::FileLen);
        }
        let len = file.try_reader()?.borrow().node.lock().unwrap().data.len();
        Ok(len)
    }

    fn remove_file(&self, file: Entry<MFile>) -> Result<(), Error> {
        let p = file.path().to_path_buf();
        if self.fault("remove_file", &p) {
            return Err(Error::RemoveFile);
        }
        if let Ok(s) = file.try_reader() {
            let s = s.borrow();
            if !s.writable {
                return self.refused("remove_file", &p, Error::RemoveFile);
            }
            let len = std::mem::take(&mut s.node.lock().unwrap().data).len();
            if len > 0 {
                self.ev(Ev::Truncate { ino: s.ino, to: 0 });
            }
        }
        if self.fault("remove_file (unlink)", &p) {
            return Err(Error::RemoveFile);
        }
        let r = (|| {
            let mut g = self.inner.lock().unwrap();
            let r = self.resolve(&g, &p, false, 0)?;
            match g.nodes.get(&r) {
                Some(N::Dir) => return Err(Errno::IsDir),
                None => return Err(Errno::NoEnt),
                _ => {}
            }
            if Self::denied(&g, &r) {
                return Err(Errno::Access);
            }
            let ino = match g.nodes.remove(&r) {
                Some(N::File(i, _)) => i,
                _ => 0,
            };
            Ok((ino, r))
        })();
        match r {
            Ok((ino, r)) => {
                self.ev(Ev::Unlink { ino, path: show_path(&r) });
                Ok(())
            }
            Err(_) => self.refused("remove_file", &p, Error::RemoveFile),
        }
    }

    fn remove_dir_all(&self, file: Entry<MFile>) -> Result<(), Error> {
        let p = file.path().to_path_buf();
        if self.fault("remove_dir_all", &p) || !file.is_dir() {
            return Err(Error::RemoveDir);
        }
        let r = (|| {
            let mut g = self.inner.lock().unwrap();
            let r = self.resolve(&g, &p, false, 0)?;
            match g.nodes.get(&r) {
                None => return Err(Errno::NoEnt),
                Some(N::File(..)) => return Err(Errno::NotDir),
                _ => {}
            }
            if Self::denied(&g, &r) || r == Path::new("/") {
                return Err(Errno::Access);
            }
            let gone: Vec<PathBuf> = g.nodes.keys().filter(|k| k.starts_with(&r)).cloned().collect();
            let mut evs = vec![];
            // a directory cannot be removed by the name "."
            let b = p.as_os_str().as_bytes();
            let plain = b.iter().rposition(|c| *c != b'/').map_or(b, |i| &b[..=i]);
            let target = self.resolve(&g, Path::new(std::ffi::OsStr::from_bytes(plain)), false, 0)?;
            // nor through a link
            let by_dot = b.ends_with(b"/.") || b == b"." || matches!(g.nodes.get(&target), Some(N::Link(_))) && plain != b;
            for k in gone.into_iter().rev() {
                if by_dot && k == r {
                    continue;
                }
                evs.push(match g.nodes.remove(&k) {
                    Some(N::File(ino, _)) => Ev::Unlink { ino, path: show_path(&k) },
                    Some(N::Link(_)) => Ev::Unlink { ino: 0, path: show_path(&k) },
                    _ => Ev::Rmdir { path: show_path(&k) },
                });
            }
            Ok((evs, by_dot))
        })();
        match r {
            Ok((evs, by_dot)) => {
                self.log.lock().unwrap().extend(evs);
                if by_dot {
                    return self.refused("remove_dir_all", &p, Error::RemoveDir);
                }
                Ok(())
            }
            Err(_) => self.refused("remove_dir_all", &p, Error::RemoveDir),
        }
    }

    fn is_symlink(&self, file: &Entry<MFile>) -> bool {
        let g = self.inner.lock().unwrap();
        self.resolve(&g, file.path(), false, 0).ok().is_some_and(|r| matches!(g.nodes.get(&r), Some(N::Link(_))))
    }

    fn read_dir(&self, file: &Entry<MFile>) -> Result<Vec<Entry<MFile>>, Error> {
        let p = file.path().to_path_buf();
        if self.fault("read_dir", &p) {
            return Err(Error::DirEntries);
        }
        if !file.is_dir() {
            return Err(Error::FileAccess);
        }
        let root = {
            let g = self.inner.lock().unwrap();
            match self.resolve(&g, &p, true, 0) {
                Ok(r) if matches!(g.nodes.get(&r), Some(N::Dir)) => r,
                _ => {
                    drop(g);
                    return self.refused("read_dir", &p, Error::DirEntries);
                }
            }
        };
        // children of every directory in (reversed) name order, parents first
        let mut out = vec![];
        let mut stack = vec![(root, p)];
        while let Some((real, shown)) = stack.pop() {
            out.push(self.read_quiet(&shown)?);
            let g = self.inner.lock().unwrap();
            if matches!(g.nodes.get(&real), Some(N::Dir)) {
                let mut kids: Vec<_> = g.nodes.keys().filter(|k| k.parent() == Some(&real) && **k != real).cloned().collect();
                if !self.listing_reversed {
                    kids.reverse();
                }
                for k in kids {
                    let s = shown.join(k.file_name().unwrap());
                    stack.push((k, s));
                }
            }
        }
        Ok(out)
    }
}

/// Opens a file of the model for one of the operations that take plain streams.
pub fn stream_of(fs: &Mfs, p: &str, write: bool) -> Option<MFile> {
    let path = fs.cwd.join(p);
    let (ino, n) = match fs.inner.lock().unwrap().nodes.get(&path) {
        Some(N::File(i, n)) => (*i, n.clone()),
        _ => return None,
    };
    let mut f = MFile::new(&fs.ex, &n, p, (fs.stream)(&path, write));
    f.writable = write;
    f.ino = ino;
    f.sink = Some(fs.log.clone());
    Some(f)
}
