//! C29: what callers are told and asked while an operation runs.

use crate::explore::{count, sut, Ex, Job, Res};
use crate::mfile::Policy;
use crate::mfile::Ev;
use crate::mfs::Mfs;
use crate::ops::*;
use crate::p_fs::{put_real, raw_zip, real_tree, ze, Dir};
use crate::refimpl::{bytes, make, Alg, Hdr, Kdf, Mode, ALGS, BLOCK};
use crate::scen::{open, sealed, PW};
use crate::sched::Run;
use crate::ensure;
use std::collections::{BTreeMap, BTreeSet};
use std::path::{Component, Path, PathBuf};
use std::sync::{Arc, Mutex};
use tools::storage::{FileStorage, Storage};

#[derive(Debug, Clone, PartialEq)]
enum Say {
    /// the header's type; whether anything had been written by then
    Header(Option<(u8, Alg, Mode)>, bool),
    Asked(PathBuf, bool),
    /// the number; whether anything had been made or changed by then
    Info(usize, bool),
}

type Says = Arc<Mutex<Vec<Say>>>;

fn kind(h: &corecrypto::header::HeaderType) -> Option<(u8, Alg, Mode)> {
    for v in 1..=5 {
        for a in ALGS {
            for m in [Mode::Stream, Mode::Memory] {
                let w = header_type(v, a, m);
                if w.version == h.version && w.algorithm == h.algorithm && w.mode == h.mode {
                    return Some((v, a, m));
                }
            }
        }
    }
    None
}

/// `..` and `.` taken out, without looking at the disk
fn plain(p: &Path) -> PathBuf {
    let mut v = PathBuf::new();
    for c in p.components() {
        match c {
            Component::ParentDir => {
                v.pop();
            }
            Component::CurDir => {}
            c => v.push(c),
        }
    }
    v
}

// ---- the header ----

fn tell_header(says: &Says, written: impl Fn() -> bool + 'static) -> tools::decrypt::OnDecryptedHeaderFn {
    let says = says.clone();
    Box::new(move |h| says.lock().unwrap().push(Say::Header(kind(h), written())))
}

/// Decrypts over the model, listening
fn listen(ex: &Ex, header: Option<&[u8]>, data: &[u8], password: &[u8], faults: bool) -> Res<(bool, Vec<Say>, Vec<u8>)> {
    let mut fs = Mfs::new(ex);
    fs.put_file("in", data);
    fs.put_file("out", b"");
    if let Some(h) = header {
        fs.put_file("h", h);
    }
    if faults {
        fs.faults = true;
        fs.stream = Box::new(|_, _| Policy::Fault);
    }
    let fs = Arc::new(fs);
    let (i, o, h) = (open(&fs, "in", false), open(&fs, "out", true), header.map(|_| open(&fs, "h", false)));
    let (says, f2) = (Says::default(), fs.clone());
    let cb = tell_header(&says, move || f2.content("out") != Some(vec![]));
    let r = sut("decrypt", || {
        tools::decrypt::execute(tools::decrypt::Request { header_reader: h.as_ref(), reader: &i, writer: &o, raw_key: pw(password), on_decrypted_header: Some(cb) })
    })?;
    let says = says.lock().unwrap().clone();
    count("decryptions listened to", 1);
    Ok((r.is_ok(), says, fs.content("out").unwrap_or_default()))
}

/// Told at most once, before anything is written, what the first bytes say; told if it succeeds.
fn told(what: &str, ok: bool, says: &[Say], header: &[u8]) -> Res<()> {
    ensure!(says.len() <= 1, "{what}: told {} times of the header", says.len());
    ensure!(!ok || says.len() == 1, "{what}: it succeeded, but nothing was told of the header");
    for s in says {
        let want = first_bytes(header);
        let Say::Header(k, late) = s else { unreachable!() };
        ensure!(*k == want && want.is_some(), "{what}: told of {k:?}, the header says {want:?}");
        ensure!(!late, "{what}: told after something was written");
    }
    Ok(())
}

fn first_bytes(b: &[u8]) -> Option<(u8, Alg, Mode)> {
    if b.len() < 6 || b[0] != 0xDE || !(1..=5).contains(&b[1]) {
        return None;
    }
    let m = match b[4..6] {
        [0x0C, 0x01] => Mode::Stream,
        [0x0C, 0x02] => Mode::Memory,
        _ => return None,
    };
    Some((b[1], ALGS.into_iter().find(|a| a.tag() == b[2..4])?, m))
}

fn header_jobs(jobs: &mut Vec<Job>, thorough: bool) {
    for v in 1..=5u8 {
        for a in ALGS {
            for m in [Mode::Stream, Mode::Memory] {
                let k = if v == 5 { Kdf::B5 } else { Kdf::B4 };
                jobs.push(Job::new(format!("the header: V{v} {a:?} {m:?}"), 0, move |ex| {
                    let n = [0, 1, 300, BLOCK, BLOCK + 1][ex.pick("size", 5) as usize];
                    let p = bytes(5, n);
                    let f = make(v, a, m, &[(PW.to_vec(), k)], &p, 31);
                    let zeros = [vec![0; f.header.len()], f.payload.clone()].concat();
                    for (how, h, data) in [("embedded", None, f.file()), ("detached", Some(&f.header[..]), f.payload.clone()), ("stripped", Some(&f.header[..]), zeros)] {
                        let (ok, says, out) = listen(ex, h, &data, PW, false)?;
                        ensure!(ok && out == p, "{how}: decrypting fails while somebody listens");
                        told(how, ok, &says, &f.header)?;
                        let (ok, says, _) = listen(ex, h, &data, b"not the password", false)?;
                        ensure!(!ok, "{how}: the wrong password opens it");
                        told(how, ok, &says, &f.header)?;
                        if !f.payload.is_empty() {
                            let (ok, says, _) = listen(ex, h, &data[..data.len() - 1], PW, false)?;
                            ensure!(!ok, "{how}: a cut file opens");
                            told(how, ok, &says, &f.header)?;
                        }
                    }
                    Ok("ok".into())
                }));
                // another file's header: what is told is what the detached header says
                jobs.push(Job::new(format!("the header: V{v} {a:?} {m:?}, changed"), 0, move |ex| {
                    let f = make(v, a, m, &[(PW.to_vec(), k)], b"content", 32);
                    let (mut accepted, mut refused) = (0, 0);
                    for i in 0..f.header.len() {
                        let old = f.header[i];
                        let values: Vec<u8> = if i < 6 || thorough { (0..=255).collect() } else { vec![old ^ 1, old ^ 0x80, 0, 0xff] };
                        for b in values.into_iter().filter(|b| *b != old) {
                            let mut h = f.header.clone();
                            h[i] = b;
                            for detached in [false, true] {
                                let data = if detached { f.payload.clone() } else { [&h[..], &f.payload].concat() };
                                let (ok, says, _) = listen(ex, detached.then_some(&h[..]), &data, PW, false)?;
                                told(&format!("byte {i} is {b}"), ok, &says, &h)?;
                                if says.is_empty() { refused += 1 } else { accepted += 1 }
                            }
                        }
                    }
                    for n in 0..f.header.len() {
                        let (ok, says, _) = listen(ex, None, &f.header[..n], PW, false)?;
                        ensure!(!ok && says.is_empty(), "told of a header of {n} bytes");
                        let (ok, says, _) = listen(ex, Some(&f.header[..n]), &f.payload, PW, false)?;
                        ensure!(!ok && says.is_empty(), "told of a detached header of {n} bytes");
                    }
                    Ok(format!("{accepted} told, {refused} refused"))
                }));
                jobs.push(Job::new(format!("the header: V{v} {a:?} {m:?}, failing reads and writes"), if thorough { 2 } else { 1 }, move |ex| {
                    let how = ex.pick("placed", 3);
                    let f = make(v, a, m, &[(PW.to_vec(), k)], &bytes(6, 700), 33);
                    let data = match how {
                        0 => f.file(),
                        1 => f.payload.clone(),
                        _ => [vec![0; f.header.len()], f.payload.clone()].concat(),
                    };
                    let (ok, says, _) = listen(ex, (how > 0).then_some(&f.header[..]), &data, PW, true)?;
                    told(&format!("{:?}", ex.notes()), ok, &says, &f.header)?;
                    Ok(format!("{ok} {}", says.len()))
                }));
            }
        }
    }
}

// ---- archives ----

/// (name, content); a name ending with a slash is a directory
type Entries = Vec<(&'static [u8], &'static [u8])>;

fn target(to: &str, name: &[u8]) -> Option<PathBuf> {
    let at = crate::p_fs::inside(name)?;
    Some(plain(&Path::new(to).join(crate::p_fs::p(&at.join(&b'/')))))
}

fn hear(says: &Says, changed: impl Fn() -> bool + Clone + 'static, answer: impl Fn(&Path) -> bool + 'static) -> (tools::decrypt::OnDecryptedHeaderFn, Box<dyn FnOnce(usize)>, Box<dyn Fn(PathBuf) -> bool>) {
    let (s1, s2) = (says.clone(), says.clone());
    let c = changed.clone();
    (
        tell_header(says, move || c()),
        Box::new(move |n| s1.lock().unwrap().push(Say::Info(n, changed()))),
        Box::new(move |p| {
            let p = plain(&p);
            let a = answer(&p);
            s2.lock().unwrap().push(Say::Asked(p, a));
            a
        }),
    )
}

/// Files and directories that were made, opened for writing or changed, but for temporary ones
fn touched(fs: &Mfs) -> BTreeSet<String> {
    let tmp = format!("{}/", crate::mfs::show_path(&std::env::temp_dir()));
    let mut named: BTreeMap<u64, String> = BTreeMap::new();
    let mut v = BTreeSet::new();
    for e in fs.events() {
        match e {
            Ev::Create { ino, path } => {
                v.insert(path.clone());
                named.insert(ino, path);
            }
            Ev::Open { ino, path, write } => {
                if write {
                    v.insert(path.clone());
                }
                named.insert(ino, path);
            }
            Ev::Write { ino, .. } | Ev::Truncate { ino, .. } => {
                v.extend(named.get(&ino).cloned());
            }
            Ev::Mkdir { path } | Ev::Rmdir { path } | Ev::Unlink { path, .. } => {
                v.insert(path);
            }
            _ => {}
        }
    }
    v.retain(|p| !p.starts_with(&tmp));
    v
}

fn judge(what: &str, ok: bool, says: &[Say], header: &[u8], entries: &Entries, to: &str, accepts: &dyn Fn(&Path) -> bool) -> Res<BTreeSet<PathBuf>> {
    let h: Vec<_> = says.iter().filter(|s| matches!(s, Say::Header(..))).cloned().collect();
    told(what, ok, &h, header)?;
    if let Some(i) = says.iter().position(|s| matches!(s, Say::Header(..))) {
        ensure!(i == 0, "{what}: told of the header after {:?}", says[0]);
    }
    let mut contained: BTreeMap<PathBuf, usize> = BTreeMap::new();
    for (n, _) in entries {
        if let Some(p) = target(to, n) {
            *contained.entry(p).or_default() += 1;
        }
    }
    let mut asked: BTreeMap<PathBuf, usize> = BTreeMap::new();
    let (mut yes, mut accepted, mut info) = (0, BTreeSet::new(), None);
    for s in says {
        match s {
            Say::Asked(p, a) => {
                ensure!(contained.contains_key(p), "{what}: asked about {p:?}, which is no entry's place");
                ensure!(info.is_none(), "{what}: asked about {p:?} after the number was told");
                *asked.entry(p.clone()).or_default() += 1;
                if *a {
                    yes += 1;
                    accepted.insert(p.clone());
                }
            }
            Say::Info(n, late) => {
                ensure!(info.is_none(), "{what}: told the number twice");
                ensure!(!late, "{what}: the number was told after something had been made");
                info = Some(*n);
            }
            Say::Header(..) => {}
        }
    }
    for (p, n) in &asked {
        ensure!(*n <= contained[p], "{what}: asked {n} times about {p:?}");
    }
    if let Some(n) = info {
        ensure!(n == yes, "{what}: {n} entries announced, {yes} accepted");
    }
    if ok {
        ensure!(info.is_some(), "{what}: it succeeded, but the number was never told");
        for p in contained.keys() {
            ensure!(asked.contains_key(p), "{what}: nobody was asked about {p:?}");
            ensure!(accepts(p) == accepted.contains(p), "the harness's answers differ");
        }
    }
    Ok(accepted)
}

/// Nothing but what was accepted (and the directories it is in) is touched.
fn only(what: &str, touched: &BTreeSet<String>, accepted: &BTreeSet<PathBuf>, cwd: &str, to: &str) -> Res<()> {
    let whole = accepted.iter().map(|a| Path::new(cwd).join(a)).chain([Path::new(cwd).join(to)]);
    let may: BTreeSet<String> = whole.flat_map(|p| plain(&p).ancestors().map(crate::mfs::show_path).collect::<Vec<_>>()).collect();
    for t in touched {
        ensure!(may.contains(t), "{what}: {t} was touched, which nobody accepted");
    }
    Ok(())
}

struct Heard {
    ok: Result<(), String>,
    says: Vec<Say>,
    fs: Arc<Mfs>,
}

#[allow(clippy::too_many_arguments)]
fn unpack_heard(ex: &Ex, file: &[u8], header: Option<&[u8]>, to: &str, password: &[u8], faults: bool, prepare: &dyn Fn(&Mfs), accepts: impl Fn(&Path) -> bool + 'static) -> Res<Heard> {
    let mut fs = Mfs::new(ex);
    fs.put_file("in", file);
    if let Some(h) = header {
        fs.put_file("h", h);
    }
    prepare(&fs);
    if faults {
        fs.faults = true;
        fs.stream = Box::new(|_, _| Policy::Fault);
    }
    let fs = Arc::new(fs);
    let says = Says::default();
    let f2 = fs.clone();
    let (on_header, on_info, on_file) = hear(&says, move || !touched(&f2).is_empty(), accepts);
    let (i, h) = (open(&fs, "in", false), header.map(|_| open(&fs, "h", false)));
    let r = sut("unpack", || {
        tools::unpack::execute(
            fs.clone(),
            tools::unpack::Request {
                reader: &i,
                header_reader: h.as_ref(),
                raw_key: pw(password),
                output_dir_path: to.into(),
                on_decrypted_header: Some(on_header),
                on_archive_info: Some(on_info),
                on_zip_file: Some(on_file),
            },
        )
        .map_err(|e| e.to_string())
    })?;
    count("unpackings listened to", 1);
    let says = says.lock().unwrap().clone();
    Ok(Heard { ok: r, says, fs })
}

fn zip_of(entries: &Entries) -> Vec<u8> {
    raw_zip(&entries.iter().map(|(n, d)| ze(n, d)).collect::<Vec<_>>())
}

fn places(entries: &Entries, to: &str) -> Vec<PathBuf> {
    entries.iter().filter_map(|e| target(to, e.0)).collect::<BTreeSet<_>>().into_iter().collect()
}

fn show(entries: &Entries) -> String {
    entries.iter().map(|e| String::from_utf8_lossy(e.0).into_owned()).collect::<Vec<_>>().join(" ")
}

/// All directories that entries may need are there already
fn ready(fs: &Mfs, to: &str) {
    fs.put_dir(format!("{to}/b"));
    fs.put_dir(format!("{to}/d/e"));
    fs.put_file(format!("{to}/a"), b"there before");
}

fn names() -> Entries {
    vec![(b"a", b"1"), (b"b/", b""), (b"b/c", b"22"), (b"./d/e/f", b"333"), (b"../x", b"evil"), (b"/y", b"evil"), ("\u{e9}".as_bytes(), b""), (b"b//../g", b"4444")]
}

fn lists(depth: usize) -> Vec<Entries> {
    let mut out: Vec<Vec<usize>> = vec![vec![]];
    let mut level = out.clone();
    for _ in 0..depth {
        level = level.iter().flat_map(|l| (0..names().len()).filter(|i| !l.contains(i)).map(move |i| [&l[..], &[i]].concat())).collect();
        out.extend(level.clone());
    }
    out.into_iter().map(|l| l.into_iter().map(|i| names()[i]).collect()).collect()
}

fn one_archive(ex: &Ex, entries: &Entries, to: &'static str, free: bool) -> Res<()> {
    let ps = places(entries, to);
    let f = sealed(&zip_of(entries));
    for mask in 0..1u32 << ps.len() {
        for detached in [false, true] {
            if detached && mask % 3 != 1 {
                continue;
            }
            let yes: Vec<PathBuf> = ps.iter().enumerate().filter(|(i, _)| mask & (1 << i) != 0).map(|(_, p)| p.clone()).collect();
            let what = format!("{} with {yes:?} accepted", show(entries));
            let y = yes.clone();
            let accepts = move |p: &Path| y.iter().any(|q| q == p);
            let run = free.then(|| Run::start_free(ex));
            let data = if detached { f.payload.clone() } else { f.file() };
            let h = unpack_heard(ex, &data, detached.then_some(&f.header), to, PW, false, &|fs| ready(fs, to), accepts.clone())?;
            if let Some(r) = run {
                r.drain();
            }
            ensure!(h.ok.is_ok(), "{what}: it fails: {:?}", h.ok);
            let accepted = judge(&what, true, &h.says, &f.header, entries, to, &accepts)?;
            only(&what, &touched(&h.fs), &accepted, "/w", to)?;
            for (n, d) in entries {
                let Some(p) = target(to, n) else { continue };
                if n.ends_with(b"/") {
                    continue;
                }
                let before = if p == Path::new(to).join("a") { Some(b"there before".to_vec()) } else { None };
                let want = if accepts(&p) { Some(d.to_vec()) } else { before };
                ensure!(h.fs.content(&p) == want, "{what}: {p:?} is {:?}", h.fs.content(&p));
            }
        }
    }
    Ok(())
}

fn archive_jobs(jobs: &mut Vec<Job>, thorough: bool) {
    for (i, chunk) in lists(if thorough { 4 } else { 3 }).chunks(40).enumerate() {
        let chunk = chunk.to_vec();
        jobs.push(Job::new(format!("archives, part {i}: every answer"), 0, move |ex| {
            for e in &chunk {
                for to in ["to", "new/deep"] {
                    one_archive(ex, e, to, true)?;
                }
            }
            Ok("ok".into())
        }));
    }
    // nobody is asked about, or told of, what isn't authentic
    for (v, a) in [(5, Alg::XChaCha), (5, Alg::Aes), (4, Alg::Deoxys), (3, Alg::XChaCha)] {
        jobs.push(Job::new(format!("damaged files V{v} {a:?}"), 0, move |ex| {
            let entries: Entries = names();
            let k = if v == 5 { Kdf::B5 } else { Kdf::B4 };
            let f = make(v, a, Mode::Stream, &[(PW.to_vec(), k)], &zip_of(&entries), 34);
            let (run, file) = (Run::start_free(ex), f.file());
            let n = f.header.len();
            let mut cases: Vec<(String, Vec<u8>, &[u8])> = vec![("the wrong password".into(), file.clone(), b"not the password"), ("no password".into(), file.clone(), b"")];
            for i in 0..file.len() {
                if thorough || i >= n || i % 5 == 0 {
                    for bit in if thorough { vec![1, 2, 4, 8, 16, 32, 64, 128] } else { vec![1u8 << (i % 8)] } {
                        let mut d = file.clone();
                        d[i] ^= bit;
                        cases.push((format!("byte {i} changed"), d, PW));
                    }
                }
                if i >= n {
                    cases.push((format!("cut to {i} bytes"), file[..i].to_vec(), PW));
                }
            }
            cases.push(("longer".into(), [&file[..], b"x"].concat(), PW));
            for (what, d, p) in cases {
                let h = unpack_heard(ex, &d, None, "to", p, false, &|fs| ready(fs, "to"), |_| true)?;
                let authentic = Hdr::parse_lax(&d).and_then(|q| {
                    let m = q.master(p)?;
                    // (the bytes that aren't authenticated are free)
                    let z = q.open_payload(&m, &f.hdr.aad(), &d[n..])?;
                    Some(z == zip_of(&entries))
                }) == Some(true);
                if authentic && h.ok.is_ok() {
                    judge(&what, true, &h.says, &d, &entries, "to", &|_| true)?;
                    continue;
                }
                ensure!(h.ok.is_err(), "{what}: it is unpacked");
                ensure!(h.says.iter().all(|s| matches!(s, Say::Header(..))), "{what}: {:?}, though the content isn't authentic", h.says);
                let t = touched(&h.fs);
                ensure!(t.is_empty(), "{what}: {t:?} was touched");
            }
            run.drain();
            Ok("ok".into())
        }));
    }
    // one that is authentic but broken: whatever is said is true
    jobs.push(Job::new("broken archives", 0, |ex| {
        let entries: Entries = vec![(b"a", b"1"), (b"b/", b""), (b"b/c", b"22"), (b"../x", b"evil")];
        let zip = zip_of(&entries);
        let run = Run::start_free(ex);
        let (mut good, mut bad) = (0, 0);
        for n in 0..zip.len() {
            let f = sealed(&zip[..n]);
            let h = unpack_heard(ex, &f.file(), None, "to", PW, false, &|fs| ready(fs, "to"), |_| true)?;
            ensure!(h.ok.is_err() || n >= zip.len() - 22, "an archive cut to {n} bytes is unpacked");
            let accepted = judge(&format!("cut to {n}"), h.ok.is_ok(), &h.says, &f.header, &entries, "to", &|_| true)?;
            only(&format!("cut to {n}"), &touched(&h.fs), &accepted, "/w", "to")?;
            bad += 1;
        }
        // the data of an entry does not match its checksum
        for (i, (_, d)) in entries.iter().enumerate() {
            if let Some(at) = (!d.is_empty()).then(|| zip.windows(d.len()).position(|w| w == *d)).flatten() {
                let mut z = zip.clone();
                z[at] ^= 1;
                let f = sealed(&z);
                let h = unpack_heard(ex, &f.file(), None, "to", PW, false, &|fs| ready(fs, "to"), |_| true)?;
                let what = format!("entry {i} damaged");
                let accepted = judge(&what, h.ok.is_ok(), &h.says, &f.header, &entries, "to", &|_| true)?;
                only(&what, &touched(&h.fs), &accepted, "/w", "to")?;
                good += 1;
            }
        }
        run.drain();
        Ok(format!("{good} {bad}"))
    }));
    // faults: a declined entry stays declined
    let e: Entries = vec![(b"a", b"1"), (b"b/", b""), (b"b/c", b"22"), (b"../x", b"evil"), (b"d/e/f", b"333")];
    for mask in 0..16u32 {
        let e = e.clone();
        jobs.push(Job::new(format!("answers {mask:04b} and failing calls"), if thorough { 2 } else { 1 }, move |ex| {
            let ps = places(&e, "to");
            let f = sealed(&zip_of(&e));
            let there = ex.pick("there", 2) == 1;
            let y: Vec<PathBuf> = ps.iter().enumerate().filter(|(i, _)| mask & (1 << i) != 0).map(|(_, p)| p.clone()).collect();
            let accepts = move |p: &Path| y.iter().any(|q| q == p);
            let run = Run::start_free(ex);
            let h = unpack_heard(ex, &f.file(), None, "to", PW, true, &|fs| if there { ready(fs, "to") }, accepts.clone())?;
            run.drain();
            drop(run);
            ex.close();
            let what = format!("{:?}", ex.notes());
            let accepted = judge(&what, h.ok.is_ok(), &h.says, &f.header, &e, "to", &accepts)?;
            only(&what, &touched(&h.fs), &accepted, "/w", "to")?;
            Ok(format!("{:?} {}", h.ok, h.says.len()))
        }));
    }
    // schedules of the threads that make directories
    let e: Entries = vec![(b"b/", b""), (b"b/q/", b""), (b"d/", b""), (b"d/e/", b""), (b"b/c", b"22"), (b"d/e/f", b"333"), (b"a", b"1")];
    for mask in [0b111_1111u32, 0b101_0101, 0b010_1011, 0b110_0110, 0, 0b000_1111] {
        let e = e.clone();
        jobs.push(Job::new(format!("answers {mask:07b} and every schedule"), if thorough { 2 } else { 1 }, move |ex| {
            let ps = places(&e, "to");
            let f = sealed(&zip_of(&e));
            let y: Vec<PathBuf> = ps.iter().enumerate().filter(|(i, _)| mask & (1 << i) != 0).map(|(_, p)| p.clone()).collect();
            let accepts = move |p: &Path| y.iter().any(|q| q == p);
            let run = Run::start(ex);
            let h = unpack_heard(ex, &f.file(), None, "to", PW, false, &|fs| ready(fs, "to"), accepts.clone())?;
            run.drain();
            drop(run);
            ex.close();
            ensure!(h.ok.is_ok(), "it fails: {:?}", h.ok);
            let accepted = judge("schedules", true, &h.says, &f.header, &e, "to", &accepts)?;
            only("schedules", &touched(&h.fs), &accepted, "/w", "to")?;
            Ok(format!("{}", h.says.len()))
        }));
    }
    // the real storage
    // (without absolute names: nothing here may depend on their being refused)
    let safe: Vec<Entries> = lists(if thorough { 3 } else { 2 }).into_iter().filter(|e| e.iter().all(|(n, _)| !n.starts_with(b"/"))).collect();
    for (i, chunk) in safe.chunks(16).enumerate() {
        let chunk = chunk.to_vec();
        jobs.push(Job::new(format!("real directories: archives, part {i}"), 0, move |_| {
            for e in &chunk {
                for mask in 0..1u32 << places(e, "to").len() {
                    on_disk(e, mask)?;
                }
            }
            Ok("ok".into())
        }));
    }
}

fn on_disk(e: &Entries, mask: u32) -> Res<()> {
    let dir = Dir::new();
    let root = dir.0.join("1/2");
    let f = sealed(&zip_of(e));
    put_real(&root, &[("to/b", None), ("to/d/e", None), ("to/a", Some(b"there before".to_vec())), ("in", Some(f.file()))].into_iter().map(|(k, v): (&str, Option<Vec<u8>>)| (k.as_bytes().to_vec(), v)).collect());
    let before = real_tree(&root);
    let to = root.join("to").to_string_lossy().into_owned();
    let y: Vec<PathBuf> = places(e, &to).into_iter().enumerate().filter(|(i, _)| mask & (1 << i) != 0).map(|(_, p)| p).collect();
    let y2 = y.clone();
    let accepts = move |p: &Path| y2.iter().any(|q| q == p);
    let says = Says::default();
    let (r2, b2) = (root.clone(), before.clone());
    let (on_header, on_info, on_file) = hear(&says, move || real_tree(&r2) != b2, accepts.clone());
    let stor = Arc::new(FileStorage);
    let r = sut("unpack", || -> Result<(), String> {
        let i = stor.read_file(root.join("in")).map_err(|e| e.to_string())?;
        tools::unpack::execute(
            stor.clone(),
            tools::unpack::Request {
                reader: i.try_reader().map_err(|e| e.to_string())?,
                header_reader: None,
                raw_key: pw(PW),
                output_dir_path: root.join("to"),
                on_decrypted_header: Some(on_header),
                on_archive_info: Some(on_info),
                on_zip_file: Some(on_file),
            },
        )
        .map_err(|e| e.to_string())
    })?;
    count("unpackings listened to", 1);
    let what = format!("{} with {y:?} accepted", show(e));
    ensure!(r.is_ok(), "{what}: it fails: {r:?}");
    let says = says.lock().unwrap().clone();
    let accepted = judge(&what, true, &says, &f.header, e, &to, &accepts)?;
    let after = real_tree(&root);
    let changed: BTreeSet<String> = after.iter().filter(|(k, v)| before.get(*k) != Some(v)).map(|(k, _)| crate::mfs::show_path(&root.join(crate::p_fs::p(k)))).collect();
    ensure!(before.keys().all(|k| after.contains_key(k)), "{what}: something was removed");
    only(&what, &changed, &accepted, "/", &to)?;
    for (n, d) in e.iter().filter(|(n, _)| !n.ends_with(b"/")) {
        if let Some(p) = target(&to, n).filter(|p| accepts(p)) {
            ensure!(std::fs::read(&p).ok().as_deref() == Some(*d), "{what}: {p:?} isn't the entry's content");
        }
    }
    ensure!(dir.temp_left().is_empty(), "{what}: temporary files are left");
    Ok(())
}

pub fn c29(thorough: bool) -> Vec<Job> {
    let mut jobs = vec![];
    header_jobs(&mut jobs, thorough);
    archive_jobs(&mut jobs, thorough);
    jobs
}
