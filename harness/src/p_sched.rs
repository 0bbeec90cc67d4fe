//! C19, C20: the worker threads of erase_dir and unpack under every schedule up to a bound.

use crate::explore::{count, sut, Ex, Job, Res};
use crate::mfile::Ev;
use crate::mfs::{Mfs, Snapshot};
use crate::ops::pw;
use crate::osx::Os;
use crate::p_fs::{overwritten, put_real, raw_zip, real_tree, ze, Dir, T};
use crate::refimpl::bytes;
use crate::scen::{self, no_temp, sealed, PW};
use crate::sched::Run;
use crate::{ensure, viol};
use std::collections::BTreeMap;
use std::path::{Path, PathBuf};
use std::sync::{Arc, OnceLock};
use tools::storage::{FileStorage, Storage};

/// Judges a history of erasing the files: (inode, name, content before)
fn erasures(evs: &[Ev], files: &[(u64, String, Vec<u8>)], passes: i32, ok: bool) -> Res<()> {
    for (ino, name, old) in files {
        let end = evs.iter().position(|e| matches!(e, Ev::Truncate { ino: i, .. } | Ev::Unlink { ino: i, .. } if i == ino));
        let Some(end) = end else {
            ensure!(!ok, "success was reported, but {name} wasn't discarded");
            continue;
        };
        if let Err(mut v) = overwritten(&evs[..=end], *ino, old, passes.max(0) as usize) {
            v.msg = format!("{name}: {}", v.msg);
            return Err(v);
        }
    }
    Ok(())
}

/// On a real file system nothing is buffered: a complete overwrite counts when its last byte is written.
fn with_flushes(evs: Vec<Ev>, files: &[(u64, String, Vec<u8>)]) -> Vec<Ev> {
    let mut out = vec![];
    let mut cov: BTreeMap<u64, (Vec<bool>, usize)> = files.iter().map(|(i, _, d)| (*i, (vec![false; d.len()], d.len()))).collect();
    for e in evs {
        let mut full = None;
        if let Ev::Write { ino, off, data } = &e {
            if let Some((c, left)) = cov.get_mut(ino) {
                for i in *off as usize..(*off as usize + data.len()).min(c.len()) {
                    if !c[i] {
                        c[i] = true;
                        *left -= 1;
                    }
                }
                if *left == 0 {
                    *left = c.len();
                    c.fill(false);
                    full = Some(*ino);
                }
            }
        }
        if !matches!(e, Ev::Flush { .. }) {
            out.push(e);
        }
        if let Some(ino) = full {
            out.push(Ev::Flush { ino });
        }
    }
    out
}

#[derive(Clone)]
struct EraseCase {
    name: &'static str,
    files: Vec<(&'static str, Vec<u8>)>,
    dirs: Vec<&'static str>,
    /// link, target
    links: Vec<(&'static str, &'static str)>,
    denied: Option<&'static str>,
    passes: i32,
    /// failing (without having touched anything else) is fine
    may_fail: bool,
}

fn case(name: &'static str, files: &[(&'static str, usize)], passes: i32) -> EraseCase {
    EraseCase { name, files: files.iter().map(|(p, n)| (*p, bytes(*n as u64 + 1, *n))).collect(), dirs: vec![], links: vec![], denied: None, passes, may_fail: false }
}

fn erase_on_model(ex: &Ex, c: &EraseCase, faults: bool, spelled: &str, reversed: bool) -> Res {
    let mut fs = Mfs::new(ex);
    fs.put_dir("d");
    for (p, d) in &c.files {
        fs.put_file(p, d);
    }
    for p in &c.dirs {
        fs.put_dir(p);
    }
    for (p, t) in &c.links {
        fs.put_link(p, t);
    }
    for (p, d) in [("out.txt", &b"precious"[..]), ("outdir/x", b"precious too"), ("d2/a", b"neighbour"), ("/w/da", b"another")] {
        fs.put_file(p, d);
    }
    if let Some(p) = c.denied {
        fs.inner.lock().unwrap().denied.push(fs.cwd.join(p));
    }
    fs.listing_reversed = reversed;
    fs.faults = faults;
    if faults {
        fs.stream = Box::new(|_, _| crate::mfile::Policy::Fault);
    }
    let files: Vec<_> = c.files.iter().map(|(p, d)| (fs.ino(p).unwrap(), p.to_string(), d.clone())).collect();
    let fs = Arc::new(fs);
    let before = fs.snapshot("/");
    let run = Run::start(ex);
    if c.files.len() > 8 {
        run.delay_bounded();
    }
    if faults {
        run.fail_spawn();
    }
    let r = scen::erase_dir(&fs, spelled, c.passes)?;
    let working = run.running();
    fs.ev(Ev::Mark("returned".into()));
    run.drain();
    drop(run);
    ex.close();
    let evs = fs.events();
    let after = fs.snapshot("/");
    outside(&before, &after, "/w/d")?;
    let fault = evs.iter().any(|e| matches!(e, Ev::Fault { .. })) || ex.notes().iter().any(|n| n.starts_with("starting thread"));
    verdict(&evs, &files, c, r.is_ok(), fault, |p| after.contains_key(&format!("/w/{p}")), &r)?;
    if r.is_ok() {
        ensure!(working == 0, "success was reported while {working} threads were still at work");
        ensure!(!after.contains_key("/w/d"), "success was reported, but the directory is there");
    }
    Ok(format!("{r:?} {:?}", ex.notes()))
}

fn outside(before: &Snapshot, after: &Snapshot, d: &str) -> Res<()> {
    let inside = |k: &str| k == d || k.starts_with(&format!("{d}/"));
    for (k, v) in before {
        ensure!(inside(k) || after.get(k) == Some(v), "{k}, outside of the directory, was touched");
    }
    for k in after.keys() {
        ensure!(before.contains_key(k), "{k} was made");
    }
    Ok(())
}

fn verdict(evs: &[Ev], files: &[(u64, String, Vec<u8>)], c: &EraseCase, ok: bool, fault: bool, there: impl Fn(&str) -> bool, r: &Result<String, String>) -> Res<()> {
    erasures(evs, files, c.passes, ok)?;
    if fault || c.denied.is_some() {
        ensure!(!ok, "something couldn't be erased, but success was reported");
    } else {
        ensure!(ok || c.may_fail, "erasing failed: {r:?}");
    }
    if let Some(p) = c.denied {
        ensure!(there(p), "{p} couldn't be erased but is gone");
    }
    Ok(())
}

fn erase_on_disk(ex: &Ex, c: &EraseCase, faults: &'static [&'static str], points: &'static [&'static str], spelled: &str) -> Res {
    let dir = Dir::new();
    let root = &dir.0;
    let mut t: T = T::new();
    t.insert(b"d".to_vec(), None);
    t.insert(b"cwd".to_vec(), None);
    for (p, d) in &c.files {
        t.insert(p.as_bytes().to_vec(), Some(d.clone()));
    }
    for p in &c.dirs {
        t.insert(p.as_bytes().to_vec(), None);
    }
    for (p, d) in [("out.txt", &b"precious"[..]), ("outdir/x", b"precious too"), ("d2/a", b"neighbour"), ("da", b"another")] {
        t.insert(p.as_bytes().to_vec(), Some(d.to_vec()));
    }
    put_real(root, &t);
    for (p, to) in &c.links {
        std::os::unix::fs::symlink(to, root.join(p)).unwrap();
    }
    use std::os::unix::fs::{MetadataExt, PermissionsExt};
    if let Some(p) = c.denied {
        std::fs::set_permissions(root.join(p), std::fs::Permissions::from_mode(0o444)).unwrap();
    }
    let files: Vec<_> = c
        .files
        .iter()
        .map(|(p, d)| (std::fs::metadata(root.join(p)).unwrap().ino(), p.to_string(), d.clone()))
        .collect();
    let before = real_tree(root);
    let os = Os::new(ex, root, points, faults);
    let run = Run::start(ex);
    if c.files.len() > 8 {
        run.delay_bounded();
    }
    if !faults.is_empty() {
        run.fail_spawn();
    }
    run.os(os.clone());
    let stor = Arc::new(FileStorage);
    let r = sut("erase_dir", || {
        let entry = match stor.read_file(root.join(spelled)) {
            Ok(e) => e,
            Err(e) => return Err(e.to_string()),
        };
        tools::erase_dir::execute(stor.clone(), tools::erase_dir::Request { entry, passes: c.passes }).map_err(|e| e.to_string())
    })?;
    let working = run.running();
    run.drain();
    drop(run);
    ex.close();
    count("executions_on_disk", 1);
    let evs = with_flushes(os.events(), &files);
    for e in &evs {
        if let Ev::Other { what } = e {
            viol!("erasing did something else: {what}");
        }
    }
    let after = real_tree(root);
    let inside = |k: &[u8]| k == b"d" || k.starts_with(b"d/");
    for (k, v) in &before {
        ensure!(inside(k) || after.get(k) == Some(v), "{}, outside of the directory, was touched", String::from_utf8_lossy(k));
    }
    for k in after.keys() {
        ensure!(before.contains_key(k), "{} was made", String::from_utf8_lossy(k));
    }
    let fault = evs.iter().any(|e| matches!(e, Ev::Fault { .. })) || ex.notes().iter().any(|n| n.starts_with("starting thread"));
    let r = r.map(|()| String::new());
    verdict(&evs, &files, c, r.is_ok(), fault, |p| after.contains_key(p.as_bytes()), &r)?;
    if r.is_ok() {
        ensure!(working == 0, "success was reported while {working} threads were still at work");
        ensure!(!after.contains_key(&b"d"[..]), "success was reported, but the directory is there");
    }
    Ok(format!("{r:?} {:?}", ex.notes()))
}

const OS_POINTS: &[&str] = &["open", "write", "truncate", "unlink", "rmdir", "mkdir", "stat", "seek"];
const OS_POINTS_DIRS: &[&str] = &["open", "unlink", "rmdir", "mkdir", "stat"];
const OS_FAULTS: &[&str] = &["open", "write", "truncate", "unlink", "rmdir", "seek", "opendir", "readdir"];

pub fn c19(thorough: bool) -> Vec<Job> {
    let mut jobs = vec![];
    let mut cases = vec![
        case("one file", &[("d/a", 5)], 1),
        case("two files", &[("d/a", 5), ("d/b", 7)], 1),
        case("two files, no passes", &[("d/a", 5), ("d/b", 600)], 0),
        case("two files, two passes", &[("d/a", 513), ("d/b", 4)], 2),
        case("three files, hidden and nested", &[("d/a", 5), ("d/.h/b", 9), ("d/s/t/.c", 3)], 1),
        case("four files", &[("d/a", 5), ("d/b", 6), ("d/.c", 7), ("d/s/d", 8)], 1),
        case("empty files", &[("d/a", 0), ("d/.b", 0), ("d/c", 4)], 1),
        case("no files", &[], 1),
    ];
    let mut with_links = case("links", &[("d/a", 5), ("d/s/b", 6)], 1);
    with_links.links = vec![("d/out", "../out.txt"), ("d/s/dir", "../../outdir"), ("d/broken", "nowhere"), ("d/self", "a"), ("d/up", "..")];
    with_links.dirs = vec!["d/e", "d/.e/f"];
    let mut broken = with_links.clone();
    broken.links.retain(|l| l.0 != "d/broken");
    cases.push(EraseCase { name: "links to files and directories", ..broken });
    // (a link that leads nowhere cannot be listed)
    with_links.may_fail = true;
    cases.push(EraseCase { name: "links, one of them broken", ..with_links });
    for (i, d) in ["d/a", "d/s/b", "d/.h"].into_iter().enumerate() {
        let mut c = case(["the first file is denied", "a nested file is denied", "the hidden file is denied"][i], &[("d/a", 5), ("d/s/b", 6), ("d/.h", 8)], 1);
        c.denied = Some(d);
        cases.push(c);
    }
    for c in cases {
        // readable for listing on disk, but not writable; on the model nothing of it may be opened,
        // which already the listing reports
        let n = c.files.len();
        // two files: each bound one deeper
        let b = |quick: usize| (quick + usize::from(thorough) + usize::from(n <= 2)).saturating_sub(usize::from(n > 3));
        for reversed in [false, true] {
            let c = c.clone();
            jobs.push(Job::new(format!("{}: every schedule, reversed={reversed}", c.name), b(2) - usize::from(reversed), move |ex| erase_on_model(ex, &c, false, "d", reversed)));
        }
        let c2 = c.clone();
        jobs.push(Job::new(format!("{}: faults and schedules", c.name), b(1), move |ex| erase_on_model(ex, &c2, true, "d", false)));
        let c3 = c.clone();
        jobs.push(Job::new(format!("{}: every schedule on disk", c.name), b(1), move |ex| {
            erase_on_disk(ex, &c3, &[], if n > 2 { OS_POINTS_DIRS } else { OS_POINTS }, "d")
        }));
        let c4 = c.clone();
        jobs.push(Job::new(format!("{}: faults and schedules on disk", c.name), if thorough { 2 } else { 1 }, move |ex| erase_on_disk(ex, &c4, OS_FAULTS, OS_POINTS, "d")));
        for spelled in ["d/", "./d", "d/.", "d2/../d"] {
            if !thorough && n > 2 {
                continue;
            }
            let mut c = c.clone();
            // a directory cannot be removed by the name "."
            c.may_fail |= spelled.ends_with('.');
            jobs.push(Job::new(format!("{} named {spelled}", c.name), 1, move |ex| {
                erase_on_model(ex, &c, false, spelled, false)?;
                Ok("ok".into())
            }));
        }
    }
    // many files: every schedule with one preemption
    let names: Vec<&'static str> = vec!["d/0", "d/1", "d/2", "d/3", "d/4", "d/5", "d/6", "d/7", "d/8", "d/9", "d/s/0", "d/s/1", "d/s/2", "d/s/3", "d/s/4", "d/s/5", "d/s/6", "d/s/7", "d/s/8", "d/s/9"];
    let many = case("many files", &names.iter().map(|n| (*n, 3)).collect::<Vec<_>>(), 0);
    jobs.push(Job::new("many files: every schedule", if thorough { 2 } else { 1 }, move |ex| erase_on_model(ex, &many, false, "d", false)));
    // shapes, on disk: files at every depth, and many of them
    jobs.push(Job::new("deep trees on disk", 0, move |ex| {
        let mut depths: Vec<usize> = (1..=if thorough { 150 } else { 48 }).collect();
        depths.extend([64, 65, 128, 129, 200]);
        let n = depths[ex.pick("depth", depths.len() as u32) as usize];
        let mut c = case("deep", &[], 1);
        let mut at = "d".to_string();
        for i in 0..n {
            at += ["/s", "/.s", "/sub"][i % 3];
            if i + 1 == n || i == n / 2 {
                // (a few bytes once per tree; it is as large as the directories' names)
                c.files.push((Box::leak(format!("{at}/f").into_boxed_str()), bytes(i as u64, 30)));
            }
        }
        erase_on_disk(ex, &c, &[], &[], "d")
    }));
    jobs.push(Job::new("wide trees on disk", 0, move |ex| {
        let n = [16usize, 31, 32, 33, 63, 64, 65, 127, 128, 129, 200, 256, 257][ex.pick("files", if thorough { 13 } else { 10 }) as usize];
        let mut c = case("wide", &[], 1);
        for i in 0..n {
            c.files.push((Box::leak(format!("d/{}{i}", ["", ".", "s/", "s/t/"][i % 4]).into_boxed_str()), bytes(i as u64, 20)));
        }
        erase_on_disk(ex, &c, &[], &[], "d")
    }));
    // what isn't a directory is refused and left alone
    jobs.push(Job::new("not a directory", 0, |ex| {
        let fs = Mfs::new(ex);
        fs.put_file("d", b"file");
        let fs = Arc::new(fs);
        let before = fs.snapshot("/");
        let run = Run::start(ex);
        let r = scen::erase_dir(&fs, "d", 1)?;
        drop(run);
        ensure!(r.is_err() && fs.snapshot("/") == before, "a file was taken for a directory: {r:?}");
        Ok("refused".into())
    }));
    jobs
}

// ---- C20 -----------------------------------------------------------------------------------

#[derive(Clone)]
struct UnpackCase {
    name: &'static str,
    /// None: a directory
    entries: Vec<(&'static str, Option<&'static [u8]>)>,
    /// what is in the target before
    existing: Vec<(&'static str, Option<&'static [u8]>)>,
    denied: Option<&'static str>,
    fails: bool,
    to: &'static str,
}

fn expected(c: &UnpackCase) -> BTreeMap<String, Option<Vec<u8>>> {
    let mut m = BTreeMap::new();
    for (p, d) in c.existing.iter().chain(&c.entries) {
        let p = p.trim_end_matches('/').trim_start_matches("./");
        for (i, _) in p.match_indices('/') {
            m.entry(p[..i].to_string()).or_insert(None);
        }
        m.insert(p.to_string(), d.map(<[u8]>::to_vec));
    }
    m
}

fn sealed_entries(c: &UnpackCase) -> Vec<u8> {
    let v: Vec<_> = c.entries.iter().map(|(n, d)| ze(n.as_bytes(), d.unwrap_or_default())).collect();
    sealed(&raw_zip(&v)).file()
}

fn unpack_on_model(ex: &Ex, c: &UnpackCase, faults: bool, base: &OnceLock<(bool, Snapshot)>) -> Res {
    let mut fs = Mfs::new(ex);
    fs.put_file("in", &sealed_entries(c));
    for (p, d) in &c.existing {
        let p = format!("{}/{}", c.to, p.trim_end_matches('/'));
        match d {
            Some(d) => {
                fs.put_file(p, d);
            }
            None => fs.put_dir(p),
        }
    }
    if let Some(p) = c.denied {
        fs.inner.lock().unwrap().denied.push(fs.cwd.join(c.to).join(p));
    }
    fs.faults = faults;
    let fs = Arc::new(fs);
    let run = Run::start(ex);
    if c.entries.len() > 8 {
        run.delay_bounded();
    }
    if faults {
        run.fail_spawn();
    }
    let r = scen::unpack(&fs, "in", None, c.to, PW)?;
    let working = run.running();
    run.drain();
    let threads = run.stats().0;
    drop(run);
    ex.close();
    no_temp_unless_fault(&fs)?;
    let after = fs.snapshot(c.to);
    let failed: Vec<String> = fs.events().into_iter().filter_map(|e| if let Ev::Fault { what } = e { Some(what) } else { None }).collect();
    let spawn_failed = ex.notes().iter().any(|n| n.starts_with("starting thread"));
    let pre = format!("{}/", crate::mfs::show_path(&fs.cwd.join(c.to)));
    let tree: BTreeMap<String, Option<Vec<u8>>> = after.iter().filter_map(|(k, v)| k.strip_prefix(&pre).map(|k| (k.to_string(), v.clone()))).collect();
    if r.is_ok() {
        ensure!(working == 0, "success was reported while {working} threads were still at work");
        ensure!(!c.fails, "something couldn't be created, but success was reported");
        let want = expected(c);
        ensure!(tree == want, "success was reported, but the target has {:?} instead of {:?}", tree.keys().collect::<Vec<_>>(), want.keys().collect::<Vec<_>>());
        // (an existing file is first tried to be created)
        ensure!(!spawn_failed && failed.iter().all(|f| f.starts_with("create_file")), "success was reported although {failed:?} failed (or a thread)");
    } else {
        ensure!(c.fails || spawn_failed || !failed.is_empty(), "unpacking failed: {r:?}");
        // no file without its directory; nothing but what the archive has
        let want = expected(c);
        for (k, v) in &tree {
            ensure!(want.contains_key(k), "{k} isn't in the archive");
            if v.is_some() {
                ensure!(k.rfind('/').is_none_or(|i| tree.get(&k[..i]) == Some(&None)), "{k} has no directory");
            }
        }
    }
    if !faults {
        let b = base.get_or_init(|| (r.is_ok(), after.clone()));
        ensure!(*b == (r.is_ok(), after), "the outcome depends on the schedule");
    }
    count("threads", threads as u64);
    Ok(format!("{r:?} {:?}", ex.notes()))
}

fn no_temp_unless_fault(fs: &Mfs) -> Res<()> {
    if fs.events().iter().any(|e| matches!(e, Ev::Fault { what } if what.starts_with("remove_file"))) {
        return Ok(());
    }
    no_temp(fs)
}

fn unpack_on_disk(ex: &Ex, c: &UnpackCase, faults: &'static [&'static str], base: &OnceLock<(bool, T)>) -> Res {
    let dir = Dir::new();
    let root = &dir.0;
    std::fs::write(root.join("in"), sealed_entries(c)).unwrap();
    let to: PathBuf = root.join(c.to);
    let mut t: T = T::new();
    for (p, d) in &c.existing {
        t.insert(p.trim_end_matches('/').as_bytes().to_vec(), d.map(<[u8]>::to_vec));
    }
    if !t.is_empty() {
        put_real(&to, &t);
    }
    use std::os::unix::fs::PermissionsExt;
    let lock = |p: &Path, m: u32| {
        if p.exists() {
            std::fs::set_permissions(p, std::fs::Permissions::from_mode(m)).unwrap();
        }
    };
    let denied = c.denied.map(|p| to.join(p).parent().unwrap().to_path_buf());
    if let Some(p) = &denied {
        std::fs::create_dir_all(p).unwrap();
        lock(p, 0o555);
    }
    let os = Os::new(ex, root, OS_POINTS_DIRS, faults);
    let run = Run::start(ex);
    if !faults.is_empty() {
        run.fail_spawn();
    }
    let stor = Arc::new(FileStorage);
    let i = stor.read_file(root.join("in")).unwrap();
    run.os(os.clone());
    let r = sut("unpack", || {
        tools::unpack::execute(
            stor.clone(),
            tools::unpack::Request {
                reader: i.try_reader().unwrap(),
                header_reader: None,
                raw_key: pw(PW),
                output_dir_path: to.clone(),
                on_decrypted_header: None,
                on_archive_info: None,
                on_zip_file: None,
            },
        )
        .map_err(|e| e.to_string())
    })?;
    let working = run.running();
    run.drain();
    drop(run);
    ex.close();
    count("executions_on_disk", 1);
    let evs = os.events();
    let after = real_tree(&to);
    if let Some(p) = &denied {
        lock(p, 0o755);
    }
    let failed: Vec<String> = evs.iter().filter_map(|e| if let Ev::Fault { what } = e { Some(what.clone()) } else { None }).collect();
    let spawn_failed = ex.notes().iter().any(|n| n.starts_with("starting thread"));
    let want: T = expected(c).into_iter().map(|(k, v)| (k.into_bytes(), v)).collect();
    if r.is_ok() {
        ensure!(working == 0, "success was reported while {working} threads were still at work");
        ensure!(!c.fails, "something couldn't be created, but success was reported");
        ensure!(after == want, "success was reported, but the target has {:?}", after.keys().map(|k| String::from_utf8_lossy(k)).collect::<Vec<_>>());
        ensure!(!spawn_failed, "success was reported although a thread couldn't be started");
    } else {
        ensure!(c.fails || spawn_failed || !failed.is_empty(), "unpacking failed: {r:?}");
        for k in after.keys() {
            ensure!(want.contains_key(k), "{} isn't in the archive", String::from_utf8_lossy(k));
        }
    }
    if faults.is_empty() {
        let b = base.get_or_init(|| (r.is_ok(), after.clone()));
        ensure!(*b == (r.is_ok(), after), "the outcome depends on the schedule");
    }
    Ok(format!("{r:?} {:?}", ex.notes()))
}

pub fn c20(thorough: bool) -> Vec<Job> {
    let mut jobs = vec![];
    let c = |name, entries: &[(&'static str, Option<&'static [u8]>)]| UnpackCase { name, entries: entries.to_vec(), existing: vec![], denied: None, fails: false, to: "to" };
    let f: Option<&'static [u8]> = Some(b"content");
    let mut cases = vec![
        c("no entries", &[]),
        c("one directory", &[("a/", None), ("a/f", f)]),
        c("a chain, outermost first", &[("a/", None), ("a/b/", None), ("a/b/c/", None), ("a/b/c/f", f), ("a/f", f)]),
        c("a chain, innermost first", &[("a/b/c/", None), ("a/b/", None), ("a/", None), ("a/b/c/f", f), ("f", f)]),
        c("files before their directories", &[("a/b/f", f), ("a/f", f), ("f", f), ("a/b/", None), ("a/", None)]),
        c("siblings", &[("a/x/", None), ("a/y/", None), ("a/x/f", f), ("a/y/f", f)]),
        c("a directory named twice", &[("a/", None), ("./a/", None), ("a/b/", None), ("a/b/f", f)]),
        c("only the innermost directories", &[("a/b/c/", None), ("a/d/e/", None), ("a/b/c/f", f)]),
        c("empty directories", &[("a/", None), ("b/", None), ("a/c/", None)]),
    ];
    let mut deep = c("a new deep target", &[("a/", None), ("a/b/", None), ("a/b/f", f)]);
    deep.to = "new/deep/to";
    cases.push(deep);
    let mut ex = c("into what exists", &[("a/", None), ("a/b/", None), ("a/b/f", f), ("g", f)]);
    ex.existing = vec![("a/", None), ("a/b/f", Some(b"older and longer content")), ("g", Some(b"")), ("h", Some(b"other"))];
    cases.push(ex.clone());
    let mut way = c("a file in the way", &[("a/", None), ("b/c/", None), ("b/", None), ("a/f", f)]);
    way.existing = vec![("b", Some(b"a file"))];
    way.fails = true;
    cases.push(way);
    let mut den = c("a directory is denied", &[("a/", None), ("b/", None), ("b/c/", None), ("a/f", f)]);
    den.existing = vec![("b/", None), ("z", Some(b"z"))];
    den.denied = Some("b/c");
    den.fails = true;
    cases.push(den);
    for c in cases {
        let dirs = c.entries.iter().filter(|e| e.1.is_none()).count();
        let b = |quick: usize| quick + usize::from(thorough) + usize::from(dirs <= 2);
        let (c1, b1) = (c.clone(), OnceLock::new());
        jobs.push(Job::new(format!("{}: every schedule", c.name), b(1), move |ex| unpack_on_model(ex, &c1, false, &b1)));
        let (c2, b2) = (c.clone(), OnceLock::new());
        jobs.push(Job::new(format!("{}: faults and schedules", c.name), b(1), move |ex| unpack_on_model(ex, &c2, true, &b2)));
        let (c3, b3) = (c.clone(), OnceLock::new());
        jobs.push(Job::new(format!("{}: every schedule on disk", c.name), b(1), move |ex| unpack_on_disk(ex, &c3, &[], &b3)));
        let (c4, b4) = (c.clone(), OnceLock::new());
        jobs.push(Job::new(format!("{}: faults and schedules on disk", c.name), if thorough { 2 } else { 1 }, move |ex| {
            unpack_on_disk(ex, &c4, &["mkdir", "open", "write", "truncate", "seek"], &b4)
        }));
    }
    let many: Vec<(&'static str, Option<&'static [u8]>)> = vec![
        ("a/", None), ("a/0/", None), ("a/1/", None), ("a/2/", None), ("a/3/", None), ("a/4/", None), ("a/5/", None), ("a/0/x/", None), ("a/1/x/", None), ("a/2/x/", None), ("b/", None), ("b/c/", None), ("b/c/d/", None), ("b/c/d/e/", None), ("a/0/x/f", f), ("b/c/d/e/f", f),
    ];
    let (m, b) = (c("many directories", &many), OnceLock::new());
    jobs.push(Job::new("many directories: every schedule", if thorough { 2 } else { 1 }, move |ex| unpack_on_model(ex, &m, false, &b)));
    jobs.push(Job::new("any number of directories", 0, move |ex| {
        let mut counts: Vec<usize> = (0..40).collect();
        counts.extend([63, 64, 65, 100, 127, 128, 129, 255, 256, 257, 400]);
        if thorough {
            counts.extend([511, 512, 513, 1000, 1024, 1025]);
        }
        let n = counts[ex.pick("directories", counts.len() as u32) as usize];
        let how = ex.pick("how", 4);
        let mut v = vec![];
        let mut want: BTreeMap<String, Option<Vec<u8>>> = BTreeMap::new();
        for i in 0..n {
            let d = match how {
                0 | 1 => format!("{i}"),
                2 => format!("{}/{i}", i % 7),
                _ => format!("x/{}/{}/{i}", i / 8, i % 3),
            };
            for (k, _) in d.match_indices('/') {
                want.insert(d[..k].into(), None);
            }
            v.push(ze(format!("{d}/").as_bytes(), b""));
            want.insert(d.clone(), None);
            if how != 1 && i % 2 == 0 {
                v.push(ze(format!("{d}/f").as_bytes(), format!("{i}").as_bytes()));
                want.insert(format!("{d}/f"), Some(format!("{i}").into_bytes()));
            }
        }
        let fs = Mfs::new(ex);
        fs.put_file("in", &sealed(&raw_zip(&v)).file());
        let fs = Arc::new(fs);
        let run = Run::start_free(ex);
        let r = scen::unpack(&fs, "in", None, "to", PW)?;
        run.drain();
        drop(run);
        ensure!(r.is_ok(), "unpacking {n} directories failed: {r:?}");
        let got: BTreeMap<String, Option<Vec<u8>>> = fs.snapshot("/w/to").into_iter().filter_map(|(k, v)| Some((k.strip_prefix("/w/to/")?.to_string(), v))).collect();
        for (k, c) in &want {
            ensure!(got.get(k) == Some(c), "of {n} directories, {k} {}", if got.contains_key(k) { "is something else" } else { "isn't there" });
        }
        ensure!(got.len() == want.len(), "of {n} directories, there are {} entries instead of {}", got.len(), want.len());
        Ok(format!("{n} {how}"))
    }));
    jobs
}
