//! C24: the real storage against the model file system, as a graph of states (trees) and operations.

use crate::explore::{count, sut, Ex, Job, Res};
use crate::mfs::{Mfs, N};
use crate::p_fs::Dir;
use crate::{ensure, viol};
use std::cell::RefCell;
use std::collections::{BTreeMap, BTreeSet, HashSet};
use std::ffi::OsString;
use std::fmt::Write as _;
use std::io::{Read, Seek, SeekFrom, Write};
use std::os::unix::ffi::{OsStrExt, OsStringExt};
use std::path::{Path, PathBuf};
use tools::storage::{Entry, FileStorage, Storage};

#[derive(Clone, PartialEq, Eq, Hash, PartialOrd, Ord, Debug)]
enum Node {
    Dir,
    File(Vec<u8>),
    Link(Vec<u8>),
}

/// relative path -> node
type Tree = BTreeMap<Vec<u8>, Node>;

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
enum Do {
    MkdirAll,
    Create,
    ReadAll,
    WriteNew,
    WriteOver,
    Append,
    RemoveRead,
    RemoveOpen,
    RemoveWritten,
    RemoveDir,
    RemoveDirAsFile,
    List,
    IsLink,
    Len,
}

const DO: [Do; 14] = [
    Do::MkdirAll,
    Do::Create,
    Do::ReadAll,
    Do::WriteNew,
    Do::WriteOver,
    Do::Append,
    Do::RemoveRead,
    Do::RemoveOpen,
    Do::RemoveWritten,
    Do::RemoveDir,
    Do::RemoveDirAsFile,
    Do::List,
    Do::IsLink,
    Do::Len,
];

/// What one operation gives back
fn act<RW: Read + Write + Seek>(s: &impl Storage<RW>, base: &Path, d: Do, p: &[u8]) -> String {
    let mut path = base.as_os_str().as_bytes().to_vec();
    if !p.is_empty() {
        path.push(b'/');
        path.extend(p);
    }
    let path = PathBuf::from(OsString::from_vec(path));
    fn e<T>(_: T) -> String {
        "error".to_string()
    }
    let write = |f: &Entry<RW>, b: &[u8], end: bool| -> Result<String, String> {
        let w: &RefCell<RW> = f.try_writer().map_err(e)?;
        if end {
            w.borrow_mut().seek(SeekFrom::End(0)).map_err(e)?;
        }
        w.borrow_mut().write_all(b).map_err(e)?;
        s.flush_file(f).map_err(e)?;
        let l = s.file_len(f).map_err(e)?;
        Ok(format!("written, length {l}"))
    };
    let read = |f: &Entry<RW>| -> Result<Vec<u8>, String> {
        let r = f.try_reader().map_err(e)?;
        r.borrow_mut().seek(SeekFrom::Start(0)).map_err(e)?;
        let mut v = vec![];
        r.borrow_mut().read_to_end(&mut v).map_err(e)?;
        Ok(v)
    };
    let run = || -> Result<String, String> {
        Ok(match d {
            Do::MkdirAll => {
                s.create_dir_all(&path).map_err(e)?;
                "made".into()
            }
            Do::Create => {
                let f = s.create_file(&path).map_err(e)?;
                let a = write(&f, b"1", false)?;
                format!("{a} {:?}", read(&f)?)
            }
            Do::ReadAll => {
                let f = s.read_file(&path).map_err(e)?;
                if f.is_dir() {
                    format!("directory {:?} {:?} {:?} {:?}", f.path() == path, f.try_reader().is_ok(), f.try_writer().is_ok(), s.file_len(&f).is_ok())
                } else {
                    let v = read(&f)?;
                    let w = f.try_writer().map_err(e)?.borrow_mut().write(b"no").is_ok();
                    format!("file {:?} {v:?} {w}", f.path() == path)
                }
            }
            Do::WriteNew => {
                let f = s.write_file(&path).map_err(e)?;
                let l = s.file_len(&f).map_err(e)?;
                let a = write(&f, b"22", false)?;
                format!("from {l}: {a} {:?}", read(&f)?)
            }
            Do::WriteOver => {
                let f = s.open_file(&path).map_err(e)?;
                let l = s.file_len(&f).map_err(e)?;
                let a = write(&f, b"3", false)?;
                format!("from {l}: {a} {:?}", read(&f)?)
            }
            Do::Append => {
                let f = s.open_file(&path).map_err(e)?;
                if s.file_len(&f).map_err(e)? > 2 {
                    return Ok("long enough".into());
                }
                let a = write(&f, b"4", true)?;
                format!("{a} {:?}", read(&f)?)
            }
            Do::RemoveRead => {
                let f = s.read_file(&path).map_err(e)?;
                s.remove_file(f).map_err(e)?;
                "removed".into()
            }
            Do::RemoveOpen => {
                let f = s.open_file(&path).map_err(e)?;
                s.remove_file(f).map_err(e)?;
                "removed".into()
            }
            Do::RemoveWritten => {
                let f = s.write_file(&path).map_err(e)?;
                s.remove_file(f).map_err(e)?;
                "removed".into()
            }
            Do::RemoveDir => {
                let f = s.read_file(&path).map_err(e)?;
                s.remove_dir_all(f).map_err(e)?;
                "removed".into()
            }
            Do::RemoveDirAsFile => {
                let f = s.read_file(&path).map_err(e)?;
                if !f.is_dir() {
                    return Ok("a file".into());
                }
                s.remove_file(f).map_err(e)?;
                "removed".into()
            }
            Do::List => {
                let f = s.read_file(&path).map_err(e)?;
                let l = s.read_dir(&f).map_err(e)?;
                let mut v: Vec<String> = l
                    .iter()
                    .map(|x| {
                        let rel = x.path().strip_prefix(&path).map(|r| r.as_os_str().as_bytes().to_vec()).unwrap_or_else(|_| b"<elsewhere>".to_vec());
                        let c = if x.is_dir() { "dir".to_string() } else { format!("{:?}", read(x)) };
                        format!("{}: {c} {}", rel.escape_ascii(), s.is_symlink(x))
                    })
                    .collect();
                v.sort();
                v.join("; ")
            }
            Do::IsLink => {
                let f = s.read_file(&path).map_err(e)?;
                format!("{}", s.is_symlink(&f))
            }
            Do::Len => {
                let f = s.read_file(&path).map_err(e)?;
                format!("{}", s.file_len(&f).map_err(e)?)
            }
        })
    };
    run().unwrap_or_else(|e| e)
}

fn os(b: &[u8]) -> PathBuf {
    PathBuf::from(OsString::from_vec(b.to_vec()))
}

fn to_model(ex: &Ex, t: &Tree) -> Mfs {
    let fs = Mfs::new(ex);
    for (p, n) in t {
        match n {
            Node::Dir => fs.put_dir(os(p)),
            Node::File(d) => {
                fs.put_file(os(p), d);
            }
            Node::Link(to) => fs.put_link(os(p), os(to)),
        }
    }
    fs
}

fn of_model(fs: &Mfs) -> Tree {
    let g = fs.inner.lock().unwrap();
    g.nodes
        .iter()
        .filter_map(|(p, n)| {
            let r = p.strip_prefix("/w").ok()?;
            if r.as_os_str().is_empty() {
                return None;
            }
            let n = match n {
                N::Dir => Node::Dir,
                N::File(_, d) => Node::File(d.lock().unwrap().data.clone()),
                N::Link(t) => Node::Link(t.as_os_str().as_bytes().to_vec()),
            };
            Some((r.as_os_str().as_bytes().to_vec(), n))
        })
        .collect()
}

fn to_disk(root: &Path, t: &Tree) {
    for (p, n) in t {
        let q = root.join(os(p));
        match n {
            Node::Dir => std::fs::create_dir_all(q).unwrap(),
            Node::File(d) => {
                std::fs::create_dir_all(q.parent().unwrap()).unwrap();
                std::fs::write(q, d).unwrap();
            }
            Node::Link(to) => {
                std::fs::create_dir_all(q.parent().unwrap()).unwrap();
                std::os::unix::fs::symlink(os(to), q).unwrap();
            }
        }
    }
}

fn of_disk(root: &Path) -> Tree {
    let mut t = Tree::new();
    let mut todo = vec![root.to_path_buf()];
    while let Some(d) = todo.pop() {
        for e in std::fs::read_dir(&d).unwrap() {
            let q = e.unwrap().path();
            let m = std::fs::symlink_metadata(&q).unwrap();
            let n = if m.is_symlink() {
                Node::Link(std::fs::read_link(&q).unwrap().into_os_string().into_vec())
            } else if m.is_dir() {
                todo.push(q.clone());
                Node::Dir
            } else {
                Node::File(std::fs::read(&q).unwrap())
            };
            t.insert(q.strip_prefix(root).unwrap().as_os_str().as_bytes().to_vec(), n);
        }
    }
    t
}

fn show(t: &Tree) -> String {
    let mut s = String::new();
    for (p, n) in t {
        let _ = match n {
            Node::Dir => write!(s, "{}/ ", p.escape_ascii()),
            Node::File(d) => write!(s, "{}={} ", p.escape_ascii(), d.escape_ascii()),
            Node::Link(to) => write!(s, "{}->{} ", p.escape_ascii(), to.escape_ascii()),
        };
    }
    s
}

/// One transition on both; gives the next state.
fn transition(ex: &Ex, t: &Tree, d: Do, p: &[u8]) -> Res<Tree> {
    let fs = to_model(ex, t);
    let want = act(&fs, Path::new("/w"), d, p);
    let want_tree = of_model(&fs);
    let dir = Dir::new();
    let root = dir.0.join("w");
    std::fs::create_dir(&root).unwrap();
    to_disk(&root, t);
    let got = sut("storage", || act(&FileStorage, &root, d, p))?;
    let got_tree = of_disk(&root);
    let outside: Vec<_> = std::fs::read_dir(&dir.0).unwrap().map(|e| e.unwrap().file_name()).filter(|n| n != "w").collect();
    count("graph_transitions", 1);
    ensure!(outside.is_empty(), "{d:?} {} on [{}] touched {outside:?}", p.escape_ascii(), show(t));
    ensure!(got == want, "{d:?} {} on [{}] gave {got:?} instead of {want:?}", p.escape_ascii(), show(t));
    ensure!(got_tree == want_tree, "{d:?} {} on [{}] left [{}] instead of [{}]", p.escape_ascii(), show(t), show(&got_tree), show(&want_tree));
    Ok(want_tree)
}

fn paths() -> Vec<Vec<u8>> {
    let mut v: Vec<Vec<u8>> = ["a", "d", "d/a", "d/.h", "d/s/x", "l", "ld", "ld/a", "lb", "a/x", "d/", "d/../a", "./a", "missing/x", "d/.", "l/", "d/s", ".h"].iter().map(|s| s.as_bytes().to_vec()).collect();
    v.push(b"\xff\xfe".to_vec());
    v.push(vec![b'n'; 256]);
    v.push(vec![b'n'; 255]);
    v
}

fn initial() -> Vec<(&'static str, Tree)> {
    let f = |b: &[u8]| Node::File(b.to_vec());
    let l = |b: &[u8]| Node::Link(b.to_vec());
    let t = |v: &[(&str, Node)]| v.iter().map(|(p, n)| (p.as_bytes().to_vec(), n.clone())).collect::<Tree>();
    vec![
        ("empty", t(&[])),
        ("files", t(&[("a", f(b"old")), ("d", Node::Dir), ("d/a", f(b"")), ("d/.h", f(b"hidden"))])),
        ("nested", t(&[("d", Node::Dir), ("d/s", Node::Dir), ("d/s/x", f(b"x")), ("d/s/.y", f(b"y")), ("d/.t", Node::Dir), ("d/.t/z", f(b"z"))])),
        ("links", t(&[("a", f(b"target")), ("d", Node::Dir), ("d/a", f(b"in d")), ("l", l(b"a")), ("ld", l(b"d")), ("d/up", l(b".."))])),
        ("broken links", t(&[("lb", l(b"nowhere")), ("l", l(b"l")), ("d", Node::Dir), ("d/a", f(b"1"))])),
    ]
}

pub fn c24(thorough: bool) -> Vec<Job> {
    let mut jobs = vec![];
    let depth = if thorough { 3 } else { 2 };
    for (name, t) in initial() {
        for d in DO {
            let t = t.clone();
            jobs.push(Job::new(format!("from {name}: {d:?} first"), 0, move |ex| {
                ex.horizon(u64::MAX);
                let ps = paths();
                let mut seen: HashSet<Tree> = HashSet::new();
                let mut level: BTreeSet<Tree> = BTreeSet::new();
                for p in &ps {
                    let n = transition(ex, &t, d, p)?;
                    if n != t && seen.insert(n.clone()) {
                        level.insert(n);
                    }
                }
                for k in 1..depth {
                    let mut next = BTreeSet::new();
                    for s in &level {
                        // the last level only needs the paths that matter to it
                        for p in &ps {
                            for d in DO {
                                if k + 1 == depth && p.len() > 200 {
                                    continue;
                                }
                                let n = transition(ex, s, d, p)?;
                                if seen.insert(n.clone()) {
                                    next.insert(n);
                                }
                            }
                        }
                    }
                    level = next;
                }
                count("graph_states", seen.len() as u64);
                Ok(format!("{} states", seen.len()))
            }));
        }
    }
    // handles that stay open: every sequence of operations on two handles
    for first in 0..HANDLE_OPS.len() {
        jobs.push(Job::new(format!("open handles: {:?} first", HANDLE_OPS[first]), 0, move |ex| {
            ex.horizon(u64::MAX);
            let n = if thorough { 5 } else { 4 };
            let mut seq = vec![first];
            handles(ex, &mut seq, n)?;
            Ok("ok".into())
        }));
    }
    jobs.push(Job::new("temporary files", 0, |_| {
        let tmp = std::env::temp_dir();
        let list = || std::fs::read_dir(&tmp).unwrap().map(|e| e.unwrap().path()).collect::<BTreeSet<_>>();
        let before = list();
        let s = FileStorage;
        let mut names = BTreeSet::new();
        let mut kept = vec![];
        for k in 0..64u64 {
            mctape::install(mctape::Mode::Seeded(k / 2)); // every name twice
            let r = sut("create_temp_file", || s.create_temp_file());
            mctape::uninstall();
            match r? {
                Ok(f) => {
                    ensure!(f.path().parent() == Some(&tmp), "a temporary file at {}", f.path().display());
                    ensure!(names.insert(f.path().to_path_buf()), "two temporary files share a name");
                    ensure!(s.file_len(&f).ok() == Some(0), "a temporary file isn't empty");
                    f.try_writer().unwrap().borrow_mut().write_all(&k.to_le_bytes()).unwrap();
                    kept.push((f.path().to_path_buf(), k));
                    drop(f);
                }
                Err(_) => ensure!(k % 2 == 1, "creating a temporary file failed"),
            }
        }
        for (p, k) in &kept {
            ensure!(std::fs::read(p).ok() == Some(k.to_le_bytes().to_vec()), "a temporary file was opened twice");
            std::fs::remove_file(p).unwrap();
        }
        ensure!(list() == before, "temporary files are left");
        Ok(format!("{} files", kept.len()))
    }));
    // what the system refuses fails, and changes nothing
    jobs.push(Job::new("deep and wide directories", 0, move |ex| {
        let mut ns: Vec<usize> = (0..40).collect();
        ns.extend([63, 64, 65, 100, 127, 128, 129, 255, 256, 257]);
        let n = ns[ex.pick("how many", ns.len() as u32) as usize];
        let dir = Dir::new();
        let d = dir.0.join("d");
        let mut want: BTreeMap<std::path::PathBuf, bool> = BTreeMap::new();
        std::fs::create_dir(&d).unwrap();
        want.insert(d.clone(), true);
        let shape = ex.pick("shape", 3);
        let mut at = d.clone();
        for i in 0..n {
            let sub = match shape {
                0 => at.join(["s", ".s", "sub"][i % 3]),
                1 => d.join(format!("{}{i}", if i % 2 == 0 { "" } else { "." })),
                _ => at.join("s"),
            };
            if shape == 2 && i % 2 == 1 {
                // siblings beside what is deep
                std::fs::write(at.join(format!("f{i}")), format!("{i}")).unwrap();
                want.insert(at.join(format!("f{i}")), false);
                continue;
            }
            std::fs::create_dir(&sub).unwrap();
            want.insert(sub.clone(), true);
            std::fs::write(sub.join(".f"), format!("{i}")).unwrap();
            want.insert(sub.join(".f"), false);
            if shape != 1 {
                at = sub;
            }
        }
        let s = FileStorage;
        let e = s.read_file(&d).map_err(|e| crate::explore::Viol { msg: format!("opening a directory failed: {e}"), sig: String::new() })?;
        let Ok(list) = sut("read_dir", || s.read_dir(&e))? else { viol!("listing {n} entries (shape {shape}) failed") };
        ensure!(list.len() == want.len(), "of {} entries, {} are listed", want.len(), list.len());
        for l in &list {
            ensure!(want.remove(l.path()) == Some(l.is_dir()), "{} is listed twice, or as what it isn't", l.path().display());
        }
        drop(list);
        ensure!(sut("remove_dir_all", || s.remove_dir_all(e))?.is_ok() && !d.exists(), "removing a directory of {n} entries failed");
        Ok(format!("{n} {shape}"))
    }));
    jobs.push(Job::new("lengths of large files", 0, move |ex| {
        let ns = [0u64, 1, 4095, 4096, 65_535, 65_536, (1 << 31) - 1, 1 << 31, (1 << 32) - 1, 1 << 32, (1 << 32) + 1, (1 << 33) + 5];
        let n = ns[ex.pick("length", ns.len() as u32) as usize];
        let dir = Dir::new();
        let f = dir.0.join("f");
        std::fs::File::create(&f).unwrap().set_len(n).unwrap(); // takes no space
        let s = FileStorage;
        for e in [s.read_file(&f), s.open_file(&f)] {
            let Ok(e) = e else { viol!("opening a file of {n} bytes failed") };
            let l = sut("file_len", || s.file_len(&e))?;
            ensure!(l.as_ref().ok().map(|l| *l as u64) == Some(n), "the length of a file of {n} bytes is {l:?}");
            e.try_reader().unwrap().borrow_mut().seek(std::io::SeekFrom::End(-(n.min(3) as i64))).unwrap();
            ensure!(s.file_len(&e).ok().map(|l| l as u64) == Some(n), "the length of a file of {n} bytes depends on the position");
        }
        let Ok(e) = s.open_file(&f) else { viol!("opening a file of {n} bytes failed") };
        ensure!(sut("remove_file", || s.remove_file(e))?.is_ok() && !f.exists(), "removing a file of {n} bytes failed");
        Ok(format!("{n}"))
    }));
    jobs.push(Job::new("permissions", 0, |_| {
        use std::os::unix::fs::PermissionsExt;
        for mode in [0o000, 0o200, 0o400, 0o444, 0o500, 0o555] {
            for on_dir in [false, true] {
                for d in DO {
                    for p in ["f/a", "f"] {
                        if (p == "f/a") != on_dir {
                            continue;
                        }
                        let dir = Dir::new();
                        let root = &dir.0;
                        if on_dir {
                            std::fs::create_dir(root.join("f")).unwrap();
                            std::fs::write(root.join("f/a"), b"data").unwrap();
                        } else {
                            std::fs::write(root.join("f"), b"data").unwrap();
                        }
                        std::fs::set_permissions(root.join("f"), std::fs::Permissions::from_mode(mode)).unwrap();
                        let r = sut("storage", || act(&FileStorage, root, d, p.as_bytes()));
                        std::fs::set_permissions(root.join("f"), std::fs::Permissions::from_mode(0o755)).unwrap();
                        let r = r?;
                        let now = std::fs::read(root.join(p));
                        let writes = matches!(d, Do::WriteNew | Do::WriteOver | Do::Append | Do::RemoveOpen | Do::RemoveWritten);
                        if r == "error" && writes {
                            // (a removal that the directory refuses may have emptied the file)
                            let emptied = on_dir && matches!(d, Do::RemoveOpen | Do::RemoveWritten) && mode & 0o100 != 0;
                            ensure!(now.as_ref().is_ok_and(|n| n == b"data" || emptied), "{d:?} with mode {mode:o} failed, but the file changed");
                        }
                        if r == "error" && !writes {
                            ensure!(now.as_ref().is_ok_and(|n| n == b"data"), "{d:?} with mode {mode:o} failed, but the file changed");
                        }
                        let writable = if on_dir { mode & 0o100 != 0 } else { mode & 0o200 != 0 };
                        let readable = if on_dir { mode & 0o100 != 0 } else { mode & 0o400 != 0 };
                        let expect = match d {
                            Do::ReadAll | Do::Len => readable,
                            Do::WriteNew | Do::WriteOver => writable && (on_dir || readable),
                            _ => continue,
                        };
                        ensure!((r != "error") == expect, "{d:?} with mode {mode:o} of {p} gave {r}");
                        count("permission_cases", 1);
                    }
                }
            }
        }
        Ok("ok".into())
    }));
    jobs
}

#[derive(Clone, Copy, Debug, PartialEq)]
enum H {
    Create(usize),
    Open(usize),
    WriteNew(usize),
    ReadOnly(usize),
    Put(usize),
    Get(usize),
    Start(usize),
    End(usize),
    Len(usize),
    Remove(usize),
    Flush(usize),
}

const HANDLE_OPS: [H; 22] = [
    H::Create(0), H::Open(0), H::WriteNew(0), H::ReadOnly(0), H::Put(0), H::Get(0), H::Start(0), H::End(0), H::Len(0), H::Remove(0), H::Flush(0),
    H::Create(1), H::Open(1), H::WriteNew(1), H::ReadOnly(1), H::Put(1), H::Get(1), H::Start(1), H::End(1), H::Len(1), H::Remove(1), H::Flush(1),
];

/// Both handles are of the same file
fn handle_run<RW: Read + Write + Seek>(s: &impl Storage<RW>, path: &Path, seq: &[usize]) -> Vec<String> {
    let mut h: [Option<Entry<RW>>; 2] = [None, None];
    let mut out = vec![];
    for (k, i) in seq.iter().enumerate() {
        let op = HANDLE_OPS[*i];
        let r = match op {
            H::Create(n) => s.create_file(path).map(|f| h[n] = Some(f)).is_ok().to_string(),
            H::Open(n) => s.open_file(path).map(|f| h[n] = Some(f)).is_ok().to_string(),
            H::WriteNew(n) => s.write_file(path).map(|f| h[n] = Some(f)).is_ok().to_string(),
            H::ReadOnly(n) => s.read_file(path).map(|f| h[n] = Some(f)).is_ok().to_string(),
            H::Remove(n) => match h[n].take() {
                Some(f) => s.remove_file(f).is_ok().to_string(),
                None => continue,
            },
            H::Put(n) | H::Get(n) | H::Start(n) | H::End(n) | H::Len(n) | H::Flush(n) => {
                let Some(f) = &h[n] else { continue };
                match op {
                    H::Put(_) => f.try_writer().map(|w| w.borrow_mut().write_all(&[b'0' + k as u8; 3]).is_ok()).unwrap_or(false).to_string(),
                    H::Get(_) => {
                        let mut b = [0u8; 2];
                        let n = f.try_reader().map(|r| r.borrow_mut().read(&mut b).ok()).unwrap_or(None);
                        format!("{n:?} {b:?}")
                    }
                    H::Start(_) => format!("{:?}", f.try_writer().map(|w| w.borrow_mut().rewind().ok()).ok()),
                    H::End(_) => format!("{:?}", f.try_writer().map(|w| w.borrow_mut().seek(SeekFrom::End(0)).ok()).ok()),
                    H::Len(_) => format!("{:?}", s.file_len(f).ok()),
                    _ => s.flush_file(f).is_ok().to_string(),
                }
            }
        };
        out.push(format!("{op:?} {r}"));
    }
    out
}

fn handles(ex: &Ex, seq: &mut Vec<usize>, depth: usize) -> Res<()> {
    // using a handle that isn't open does nothing: such sequences are covered by shorter ones
    let mut open = [false; 2];
    for i in seq.iter() {
        match HANDLE_OPS[*i] {
            H::Create(n) | H::Open(n) | H::WriteNew(n) | H::ReadOnly(n) => open[n] = true,
            H::Put(n) | H::Get(n) | H::Start(n) | H::End(n) | H::Len(n) | H::Flush(n) => {
                if !open[n] {
                    return Ok(());
                }
            }
            H::Remove(n) => {
                if !open[n] {
                    return Ok(());
                }
                open[n] = false;
            }
        }
    }
    if seq.len() == depth {
        for existing in [None, Some(&b"ABCDE"[..])] {
            let fs = Mfs::new(ex);
            let dir = Dir::new();
            if let Some(d) = existing {
                fs.put_file("x", d);
                std::fs::write(dir.0.join("x"), d).unwrap();
            }
            let want = handle_run(&fs, Path::new("/w/x"), seq);
            let want_now = fs.content("x");
            let got = sut("storage", || handle_run(&FileStorage, &dir.0.join("x"), seq))?;
            let got_now = std::fs::read(dir.0.join("x")).ok();
            count("graph_transitions", seq.len() as u64);
            if got != want || got_now != want_now {
                viol!("{got:?} and then {got_now:?} instead of {want:?} and {want_now:?}");
            }
        }
        return Ok(());
    }
    for i in 0..HANDLE_OPS.len() {
        seq.push(i);
        handles(ex, seq, depth)?;
        seq.pop();
    }
    Ok(())
}
