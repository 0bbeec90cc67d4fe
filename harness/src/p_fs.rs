//! C15-C18, C21: pack, unpack and erase over the model file system (and the real one).

use crate::explore::{count, sut, Ex, Job, Res, Viol};
use crate::mfile::{Ev, Policy};
use crate::mfs::{show_path, Mfs, Snapshot};
use crate::ops::{header_type, kdf, pw};
use crate::refimpl::{bytes, Alg, Kdf, Mode, BLOCK};
use crate::scen::{self, no_temp, open, pack, sealed, unpack, unpack_filtered, Group, PW};
use crate::sched::Run;
use crate::{ensure, viol};
use std::collections::{BTreeMap, BTreeSet};
use std::ffi::OsString;
use std::os::unix::ffi::{OsStrExt, OsStringExt};
use std::path::{Path, PathBuf};
use std::sync::{Arc, OnceLock};
use tools::storage::{FileStorage, Storage};

/// path (bytes) -> content, None for directories
pub type T = BTreeMap<Vec<u8>, Option<Vec<u8>>>;

pub fn p(b: &[u8]) -> PathBuf {
    PathBuf::from(OsString::from_vec(b.to_vec()))
}

fn put(fs: &Mfs, t: &T) {
    for (path, c) in t {
        match c {
            Some(c) => {
                fs.put_file(p(path), c);
            }
            None => fs.put_dir(p(path)),
        }
    }
}

fn text(b: &[u8]) -> String {
    show_path(&p(b))
}

/// What is below a directory of the model, relative to it
fn below(fs: &Mfs, dir: &str) -> BTreeMap<String, Option<Vec<u8>>> {
    let dir = if dir.starts_with('/') { dir.to_string() } else { format!("/w/{dir}") };
    let pre = format!("{dir}/");
    fs.snapshot(&dir).into_iter().filter_map(|(k, v)| k.strip_prefix(&pre).map(|k| (k.to_string(), v))).collect()
}

/// `got` is `want` below some directory, and nothing else but the way there.
fn is_tree_at(got: &BTreeMap<String, Option<Vec<u8>>>, want: &BTreeMap<String, Option<Vec<u8>>>, at: &str) -> bool {
    let mut all: BTreeMap<String, Option<Vec<u8>>> = BTreeMap::new();
    if !at.is_empty() {
        let mut cur = String::new();
        for c in at.split('/') {
            if !cur.is_empty() {
                cur.push('/');
            }
            cur += c;
            all.insert(cur.clone(), None);
        }
    }
    for (k, v) in want {
        all.insert(if at.is_empty() { k.clone() } else { format!("{at}/{k}") }, v.clone());
    }
    all == *got
}

struct RoundTrip<'a> {
    tree: &'a T,
    /// how each packed directory is named, and its real path below /w
    roots: &'a [(&'a str, &'a str)],
    to: &'a str,
    zstd: bool,
    detached: bool,
    reversed: bool,
    alg: Alg,
}

fn round_trip(ex: &Ex, r: &RoundTrip<'_>, may_refuse: bool) -> Res {
    ex.horizon(u64::MAX);
    let mut fs = Mfs::new(ex);
    put(&fs, r.tree);
    fs.put_file("pkd/out", b"");
    fs.put_file("pkd/hdr", b"");
    fs.listing_reversed = r.reversed;
    let fs = Arc::new(fs);
    let before = fs.snapshot("/");
    let names: Vec<&str> = r.roots.iter().map(|x| x.0).collect();
    let run = Run::start_free(ex);
    let packed = pack(&fs, &names, "pkd/out", r.detached.then_some("pkd/hdr"), r.zstd, r.alg, Kdf::B5, PW)?;
    if let Err(e) = packed {
        ensure!(may_refuse, "packing {names:?} failed: {e}");
        no_temp(&fs)?;
        return Ok(format!("refused: {e}"));
    }
    ensure!(!fs.content("pkd/out").unwrap_or_default().is_empty(), "pack wrote nothing");
    let unpacked = unpack(&fs, "pkd/out", r.detached.then_some("pkd/hdr"), r.to, PW)?;
    run.drain();
    drop(run);
    if let Err(e) = unpacked {
        viol!("unpacking what was packed from {names:?} failed: {e}");
    }
    no_temp(&fs)?;
    // nothing else has changed
    let after = fs.snapshot("/");
    let to = {
        let g = fs.inner.lock().unwrap();
        match fs.resolve(&g, Path::new(r.to), true, 0) {
            Ok(t) => show_path(&t),
            Err(_) => viol!("the target directory doesn't exist"),
        }
    };
    for (k, v) in &after {
        if !(k == &to || k.starts_with(&format!("{to}/")) || to.starts_with(&format!("{k}/")) || k.starts_with("/w/pkd/")) {
            ensure!(before.get(k) == Some(v), "{k} was added or changed");
        }
    }
    for k in before.keys() {
        ensure!(after.contains_key(k), "{k} was removed");
    }
    let got = below(&fs, &to);
    let mut places = vec![];
    if let [(_, real)] = r.roots {
        let want = below(&fs, real);
        // named plainly: the directory itself reappears below the target
        let plain = r.roots[0].0 == *real;
        let found = if plain {
            is_tree_at(&got, &want, real).then(|| real.to_string())
        } else {
            std::iter::once(String::new())
                .chain(got.iter().filter(|(_, v)| v.is_none()).map(|(k, _)| k.clone()))
                .find(|at| is_tree_at(&got, &want, at))
        };
        match found {
            Some(at) => places.push(at),
            None => viol!(
                "{:?} isn't reproduced: {} entries in, {} out; missing or different: {:?}, additional: {:?}",
                r.roots[0].0,
                want.len(),
                got.len(),
                want.iter().filter(|(k, v)| got.get(&format!("{real}/{k}")) != Some(v)).map(|(k, _)| k).take(5).collect::<Vec<_>>(),
                got.keys().filter(|k| k.strip_prefix(&format!("{real}/")).is_none_or(|k| !want.contains_key(k))).take(5).collect::<Vec<_>>()
            ),
        }
    } else {
        let mut want: BTreeMap<String, Option<Vec<u8>>> = BTreeMap::new();
        for (_, real) in r.roots {
            let mut cur = String::new();
            for c in real.split('/') {
                if !cur.is_empty() {
                    cur.push('/');
                }
                cur += c;
                want.insert(cur.clone(), None);
            }
            for (k, v) in below(&fs, real) {
                want.insert(format!("{real}/{k}"), v);
            }
        }
        ensure!(
            got == want,
            "packing {names:?} gave {:?} instead of {:?}",
            got.iter().map(|(k, v)| (k, v.as_ref().map(Vec::len))).collect::<Vec<_>>(),
            want.iter().map(|(k, v)| (k, v.as_ref().map(Vec::len))).collect::<Vec<_>>()
        );
    }
    Ok(format!("{} entries at {places:?}", got.len()))
}

/// All trees with up to `n` entries over the names, as sets of paths below "d"
pub fn trees(n: usize, names: &[&str]) -> Vec<T> {
    // a forest: for each name absent, empty file, file, or a directory with a forest
    fn forests(n: usize, names: &[&str], k: usize, memo: &mut BTreeMap<(usize, usize), Vec<T>>) -> Vec<T> {
        if k == names.len() || n == 0 {
            return vec![T::new()];
        }
        if let Some(v) = memo.get(&(n, k)) {
            return v.clone();
        }
        let name = names[k].as_bytes();
        let mut out = forests(n, names, k + 1, memo);
        for rest in forests(n - 1, names, k + 1, memo) {
            for c in [&b""[..], b"content"] {
                let mut t = rest.clone();
                t.insert(name.to_vec(), Some([c, if c.is_empty() { b"" } else { name }].concat()));
                out.push(t);
            }
        }
        for inner in forests(n - 1, names, 0, memo) {
            let left = n - 1 - inner.len();
            for rest in forests(left, names, k + 1, memo) {
                let mut t = rest;
                t.insert(name.to_vec(), None);
                for (q, c) in &inner {
                    t.insert([name, b"/", q].concat(), c.clone());
                }
                out.push(t);
            }
        }
        memo.insert((n, k), out.clone());
        out
    }
    let mut memo = BTreeMap::new();
    let set: BTreeSet<T> = forests(n, names, 0, &mut memo).into_iter().collect();
    set.into_iter()
        .map(|t| {
            let mut d: T = t.into_iter().map(|(k, v)| ([b"d/", &k[..]].concat(), v)).collect();
            d.insert(b"d".to_vec(), None);
            d
        })
        .collect()
}

/// Names a file may have on a file system but that archives, shells or other systems treat specially
pub fn odd_names() -> Vec<Vec<u8>> {
    let mut v: Vec<Vec<u8>> = vec![];
    for b in 1..=0x7fu8 {
        if b != b'/' && b != b'.' {
            v.push(vec![b]);
            v.push(vec![b'a', b]);
        }
    }
    let special: Vec<&str> = vec![".", "\\", " ", "*", "~", "-", ":", "\"", "\n", "é", "a", "..", "C", "\u{feff}", "\u{202e}"];
    for a in &special {
        for b in &special {
            for c in ["", "x", "\\", "."] {
                let n = format!("{a}{b}{c}");
                if n != "." && n != ".." {
                    v.push(n.into_bytes());
                }
            }
        }
    }
    for n in ["...", "....", ".hidden", "..x", "x..", "a.", ".a.", "CON", "NUL", "aux.txt", "-rf", "--", "~root", "$HOME", "%00", "a%2fb", "con\\..\\x", "..\\..\\x", "C:\\x", "\\\\server\\x", "日本語", "e\u{301}", "\u{1f600}", "name\r\n", "tab\t", "[a]{b}", "a&b|c;d", "'q'", "`c`", "d.zip", "vol.enc"] {
        v.push(n.as_bytes().to_vec());
    }
    v.push(vec![b'n'; 255]);
    v.push("é".repeat(127).into_bytes());
    v.sort();
    v.dedup();
    v
}

const NOT_UNICODE: [&[u8]; 4] = [b"\xff", b"a\x80b", b"\xc3", b"x\xed\xa0\x80"];

fn d(entries: &[(&[u8], Option<&[u8]>)]) -> T {
    let mut t: T = entries.iter().map(|(k, v)| ([b"d/", *k].concat(), v.map(<[u8]>::to_vec))).collect();
    t.insert(b"d".to_vec(), None);
    t
}

pub fn c15(thorough: bool) -> Vec<Job> {
    let mut jobs = vec![];
    fn plain(t: &T) -> RoundTrip<'_> {
        RoundTrip { tree: t, roots: &[("d", "d")], to: "to", zstd: false, detached: false, reversed: false, alg: Alg::XChaCha }
    }
    // every small tree
    let all = trees(if thorough { 6 } else { 5 }, &["a", "b"]);
    for (i, chunk) in all.chunks(64).enumerate() {
        let chunk = chunk.to_vec();
        jobs.push(Job::new(format!("small trees, part {i}"), 0, move |ex| {
            let mut o = String::new();
            for t in &chunk {
                for (zstd, reversed) in [(false, false), (true, true)] {
                    o = round_trip(ex, &RoundTrip { zstd, reversed, ..plain(t) }, false).map_err(|mut v| {
                        v.msg = format!("{} (tree {:?})", v.msg, t.keys().map(|k| text(k)).collect::<Vec<_>>());
                        v
                    })?;
                    count("round_trips", 1);
                }
            }
            Ok(o)
        }));
    }
    // names
    for (i, chunk) in odd_names().chunks(24).enumerate() {
        let chunk = chunk.to_vec();
        jobs.push(Job::new(format!("names, part {i}"), 0, move |ex| {
            for n in &chunk {
                let t = d(&[
                    (n, Some(b"file")),
                    (b"y", None),
                    (&[b"y/", &n[..]].concat(), None),
                    (&[b"y/", &n[..], b"/", n].concat(), Some(b"inner")),
                    (b"plain", Some(b"p")),
                ]);
                for zstd in [false, true] {
                    round_trip(ex, &RoundTrip { zstd, ..plain(&t) }, false).map_err(|mut v| {
                        v.msg = format!("{} (name {})", v.msg, text(n));
                        v
                    })?;
                    count("round_trips", 1);
                }
            }
            Ok(format!("{} names", chunk.len()))
        }));
    }
    // all pairs of related names in one directory: nothing is merged
    jobs.push(Job::new("pairs of names", 0, move |ex| {
        let names: Vec<&[u8]> = vec![b"a", b"A", b"a ", b" a", b"a.", b".a", b"a\\", b"\\a", b"a\\b", b"a:b", b"ab", "e\u{301}".as_bytes(), "\u{e9}".as_bytes(), b"a\nb", b"..a", b"a..", b"..."];
        for x in &names {
            for y in &names {
                if x == y {
                    continue;
                }
                for kind in 0..3 {
                    let t = match kind {
                        0 => d(&[(x, Some(b"1")), (y, Some(b"22"))]),
                        1 => d(&[(x, None), (y, Some(b"22"))]),
                        _ => d(&[(x, None), (y, None), (&[x, &b"/f"[..]].concat(), Some(b"3")), (&[y, &b"/f"[..]].concat(), Some(b"4"))]),
                    };
                    round_trip(ex, &plain(&t), false)?;
                    count("round_trips", 1);
                }
            }
        }
        Ok("ok".into())
    }));
    // names that aren't Unicode: reproduced or refused, never renamed
    for n in NOT_UNICODE {
        jobs.push(Job::new(format!("name {}", text(n)), 0, move |ex| {
            let t = d(&[(n, Some(b"file")), (b"other", Some(b"1"))]);
            let u = d(&[(n, None), (&[n, b"/f"].concat(), Some(b"1"))]);
            Ok(round_trip(ex, &plain(&t), true)? + &round_trip(ex, &plain(&u), true)?)
        }));
    }
    // sizes and contents
    let sizes: Vec<usize> = vec![0, 1, 2, 511, 512, 513, 8191, 8192, 8193, 65_535, 65_536, 65_537, BLOCK - 1, BLOCK, BLOCK + 1, 2 * BLOCK - 1, 2 * BLOCK, 2 * BLOCK + 1, 3 * BLOCK + 7];
    for n in sizes {
        for zstd in [false, true] {
            jobs.push(Job::new(format!("a file of {n} bytes, zstd={zstd}"), 0, move |ex| {
                let mut o = String::new();
                for content in [vec![0u8; n], bytes(n as u64, n), b"PK\x05\x06ab".iter().copied().cycle().take(n).collect()] {
                    let t = d(&[(b"f", Some(&content)), (b"g", Some(b"after"))]);
                    for alg in [Alg::XChaCha, Alg::Aes, Alg::Deoxys] {
                        if n > BLOCK && alg != Alg::Aes && !thorough {
                            continue;
                        }
                        o = round_trip(ex, &RoundTrip { zstd, alg, detached: n % 2 == 1, ..plain(&t) }, false)?;
                        count("round_trips", 1);
                    }
                }
                Ok(o)
            }));
        }
    }
    // shapes: deep, wide
    let mut deep = d(&[]);
    let mut path = b"d".to_vec();
    for i in 0..40 {
        path.extend(format!("/level{i}").bytes());
        deep.insert(path.clone(), None);
        deep.insert([&path[..], b"/f"].concat(), Some(vec![i; i as usize]));
    }
    let mut wide = d(&[]);
    for i in 0..120 {
        wide.insert(format!("d/file{i}").into_bytes(), Some(format!("{i}").into_bytes()));
        wide.insert(format!("d/dir{i}").into_bytes(), None);
        if i % 3 == 0 {
            wide.insert(format!("d/dir{i}/.in").into_bytes(), Some(vec![]));
        }
    }
    for (what, t) in [("deep", deep), ("wide", wide)] {
        jobs.push(Job::new(format!("a {what} tree"), 0, move |ex| {
            let mut o = String::new();
            for (zstd, reversed, detached) in [(false, false, false), (true, true, true), (false, true, false)] {
                o = round_trip(ex, &RoundTrip { zstd, reversed, detached, ..plain(&t) }, false)?;
                count("round_trips", 1);
            }
            Ok(o)
        }));
    }
    // however the directory and the target are named
    let base: T = {
        let mut t: T = T::new();
        for r in ["d", "s/d", "s/t/d", "d.x"] {
            let mut cur = String::new();
            for c in r.split('/') {
                if !cur.is_empty() {
                    cur.push('/');
                }
                cur += c;
                t.insert(cur.clone().into_bytes(), None);
            }
            t.insert(format!("{r}/f").into_bytes(), Some(format!("in {r}").into_bytes()));
            t.insert(format!("{r}/.h").into_bytes(), None);
            t.insert(format!("{r}/.h/g").into_bytes(), Some(b"g".to_vec()));
            t.insert(format!("{r}/empty").into_bytes(), None);
        }
        t
    };
    let spellings: &[(&str, &str)] = &[
        ("d", "d"),
        ("d/", "d"),
        ("d//", "d"),
        ("./d", "d"),
        ("././d/.", "d"),
        ("d/.", "d"),
        ("/w/d", "d"),
        ("/w//d/", "d"),
        ("/../w/d", "d"),
        ("../w/d", "d"),
        ("s/../d", "d"),
        ("s/t/../../d", "d"),
        ("d/../d", "d"),
        ("../../../w/d", "d"),
        ("d/..//s/d", "s/d"),
        ("s/d", "s/d"),
        ("./s/./d", "s/d"),
        ("/w/s/d", "s/d"),
        ("s/t/d", "s/t/d"),
        ("s//t///d/", "s/t/d"),
        ("d.x", "d.x"),
        ("s/t/d/..", "s/t"),
        ("s/t/d/../d", "s/t/d"),
        ("d/.h/..", "d"),
    ];
    for &(spelled, real) in spellings {
        let base = base.clone();
        jobs.push(Job::new(format!("directory named {spelled}"), 0, move |ex| {
            let mut o = String::new();
            for to in ["to", "./to/", "new/deep/target", "/w/to", "../w/to", "pkd/to", "/to"] {
                for reversed in [false, true] {
                    o = round_trip(ex, &RoundTrip { roots: &[(spelled, real)], to, reversed, zstd: reversed, ..plain(&base) }, false)?;
                    count("round_trips", 1);
                }
            }
            Ok(o)
        }));
    }
    // several input directories
    let several: Vec<Vec<(&str, &str)>> = vec![
        vec![("d", "d"), ("s", "s")],
        vec![("s", "s"), ("d", "d")],
        vec![("d", "d"), ("d.x", "d.x"), ("s/d", "s/d")],
        vec![("s/d", "s/d"), ("s/t", "s/t")],
        vec![("d.x", "d.x"), ("d", "d")],
        vec![("s/t/d", "s/t/d"), ("s/d", "s/d"), ("d", "d"), ("d.x", "d.x")],
    ];
    for roots in several {
        let base = base.clone();
        jobs.push(Job::new(format!("directories {:?}", roots.iter().map(|r| r.0).collect::<Vec<_>>()), 0, move |ex| {
            let mut o = String::new();
            for (zstd, reversed) in [(false, false), (true, true)] {
                o = round_trip(ex, &RoundTrip { roots: &roots, zstd, reversed, ..plain(&base) }, false)?;
                count("round_trips", 1);
            }
            Ok(o)
        }));
    }
    // the same directory twice, or one inside of the other: everything once, or refused
    for roots in [vec![("d", "d"), ("d", "d")], vec![("d", "d"), ("./d", "d")], vec![("s", "s"), ("s/d", "s/d")], vec![("d", "d"), ("/w/d", "d")]] {
        let base = base.clone();
        jobs.push(Job::new(format!("overlapping directories {:?}", roots.iter().map(|r| r.0).collect::<Vec<_>>()), 0, move |ex| {
            let mut fs = Mfs::new(ex);
            put(&fs, &base);
            fs.put_file("out", b"");
            fs.listing_reversed = false;
            let fs = Arc::new(fs);
            let names: Vec<&str> = roots.iter().map(|x| x.0).collect();
            let run = Run::start_free(ex);
            let r = pack(&fs, &names, "out", None, false, Alg::Aes, Kdf::B5, PW)?;
            if r.is_ok() {
                let u = unpack(&fs, "out", None, "to", PW)?;
                run.drain();
                ensure!(u.is_ok(), "unpacking failed: {u:?}");
                for (_, real) in &roots {
                    let want = below(&fs, real);
                    let any = below(&fs, "/w/to");
                    ensure!(
                        std::iter::once(String::new())
                            .chain(any.iter().filter(|(_, v)| v.is_none()).map(|(k, _)| format!("{k}/")))
                            .any(|at| want.iter().all(|(k, v)| any.get(&format!("{at}{k}")) == Some(v))),
                        "{real} is incomplete"
                    );
                }
            }
            drop(run);
            no_temp(&fs)?;
            Ok(format!("{r:?}"))
        }));
    }
    // real directories
    for (i, chunk) in odd_names().chunks(80).enumerate() {
        let chunk = chunk.to_vec();
        jobs.push(Job::new(format!("real directories: names, part {i}"), 0, move |_| {
            for n in &chunk {
                let t = d(&[(n, Some(b"file")), (b"y", None), (&[b"y/", &n[..]].concat(), None), (&[b"y/", &n[..], b"/", n].concat(), Some(b"inner"))]);
                real_round_trip(&t, "d", false)?;
                count("real_round_trips", 1);
            }
            Ok("ok".into())
        }));
    }
    let some = trees(3, &["a", ".b"]);
    for (i, chunk) in some.chunks(100).enumerate() {
        let chunk = chunk.to_vec();
        jobs.push(Job::new(format!("real directories: small trees, part {i}"), 0, move |_| {
            for (k, t) in chunk.iter().enumerate() {
                for spelled in ["d", "./d/", "abs", "x/../d"] {
                    real_round_trip(t, spelled, k % 2 == 0)?;
                    count("real_round_trips", 1);
                }
            }
            Ok("ok".into())
        }));
    }
    jobs
}

static SERIAL: std::sync::atomic::AtomicU64 = std::sync::atomic::AtomicU64::new(0);

/// A scratch directory of this process' own, removed at the end
pub struct Dir(pub PathBuf, Option<PathBuf>);
impl Dir {
    pub fn new() -> Dir {
        let n = SERIAL.fetch_add(1, std::sync::atomic::Ordering::Relaxed);
        let base = PathBuf::from(std::env::var_os("MC_SCRATCH").expect("MC_SCRATCH")).join("work");
        let d = base.join(format!("dir{n}"));
        std::fs::create_dir(&d).expect("scratch directory");
        // what runs at the same time in other threads must not matter
        let tmp = base.join(format!("tmp{n}"));
        let own = crate::sched::own_tmp(Some(&tmp));
        if own {
            std::fs::create_dir(&tmp).expect("directory for temporary files");
        }
        Dir(d, own.then_some(tmp))
    }

    /// Temporary files that are left
    pub fn temp_left(&self) -> Vec<String> {
        let Some(t) = &self.1 else { return vec![] };
        std::fs::read_dir(t).map(|d| d.flatten().map(|e| e.file_name().to_string_lossy().into_owned()).collect()).unwrap_or_default()
    }
}
impl Drop for Dir {
    fn drop(&mut self) {
        assert!(self.0.to_string_lossy().contains("/volaris-mc-"));
        let _ = std::fs::remove_dir_all(&self.0);
        if let Some(t) = &self.1 {
            crate::sched::own_tmp(None);
            let _ = std::fs::remove_dir_all(t);
        }
    }
}

pub fn real_tree(at: &Path) -> T {
    let mut t = T::new();
    for e in walk(at) {
        let rel = e.strip_prefix(at).unwrap().as_os_str().as_bytes().to_vec();
        if !rel.is_empty() {
            let m = std::fs::symlink_metadata(&e).unwrap();
            t.insert(rel, m.is_file().then(|| std::fs::read(&e).unwrap_or_else(|_| b"<unreadable>".to_vec())));
        }
    }
    t
}

fn walk(at: &Path) -> Vec<PathBuf> {
    let mut v = vec![at.to_path_buf()];
    if std::fs::symlink_metadata(at).is_ok_and(|m| m.is_dir()) {
        for e in std::fs::read_dir(at).unwrap() {
            v.extend(walk(&e.unwrap().path()));
        }
    }
    v
}

pub fn put_real(at: &Path, t: &T) {
    for (k, v) in t {
        let q = at.join(p(k));
        match v {
            Some(c) => {
                std::fs::create_dir_all(q.parent().unwrap()).unwrap();
                std::fs::write(q, c).unwrap();
            }
            None => std::fs::create_dir_all(q).unwrap(),
        }
    }
}

fn real_round_trip(t: &T, spelled: &str, zstd: bool) -> Res<()> {
    let dir = Dir::new();
    let root = &dir.0;
    put_real(root, t);
    std::fs::create_dir_all(root.join("x")).unwrap();
    let stor = Arc::new(FileStorage);
    // (threads share the working directory, so names are relative to a scratch directory in it)
    let serial = root.file_name().unwrap().to_str().unwrap();
    let from = if spelled == "abs" { root.join("d") } else { Path::new(serial).join(spelled) };
    let r = sut("pack", || -> Result<(), String> {
        let e = stor.read_file(&from).map_err(|e| e.to_string())?;
        let files = stor.read_dir(&e).map_err(|e| e.to_string())?;
        let out = stor.create_file(root.join("out")).map_err(|e| e.to_string())?;
        tools::pack::execute(
            stor.clone(),
            tools::pack::Request {
                writer: out.try_writer().map_err(|e| e.to_string())?,
                compress_files: files,
                compression_method: if zstd { zip::CompressionMethod::Zstd } else { zip::CompressionMethod::Stored },
                header_writer: None,
                raw_key: pw(PW),
                header_type: header_type(5, Alg::XChaCha, Mode::Stream),
                hashing_algorithm: kdf(Kdf::B5),
            },
        )
        .map_err(|e| e.to_string())
    })?;
    let names = || t.keys().map(|k| text(k)).collect::<Vec<_>>();
    if let Err(e) = r {
        viol!("packing {} of {:?} failed: {e}", from.display(), names());
    }
    let r = sut("unpack", || -> Result<(), String> {
        let i = stor.read_file(root.join("out")).map_err(|e| e.to_string())?;
        tools::unpack::execute(
            stor.clone(),
            tools::unpack::Request {
                reader: i.try_reader().map_err(|e| e.to_string())?,
                header_reader: None,
                raw_key: pw(PW),
                output_dir_path: root.join("to"),
                on_decrypted_header: None,
                on_archive_info: None,
                on_zip_file: None,
            },
        )
        .map_err(|e| e.to_string())
    })?;
    if let Err(e) = r {
        viol!("unpacking what was packed of {:?} failed: {e}", names());
    }
    let got = real_tree(&root.join("to"));
    let want = real_tree(&root.join("d"));
    let at = got.keys().filter(|k| got[*k].is_none()).find(|at| {
        let inside: T = got.iter().filter_map(|(k, v)| k.strip_prefix(&[&at[..], b"/"].concat()[..]).map(|k| (k.to_vec(), v.clone()))).collect();
        inside == want && got.keys().all(|k| k.starts_with(at) || at.starts_with(k))
    });
    ensure!(at.is_some(), "{:?} became {:?}", names(), got.keys().map(|k| text(k)).collect::<Vec<_>>());
    ensure!(*t == real_tree(root).into_iter().filter(|(k, _)| k == b"d" || k.starts_with(b"d/")).collect::<T>(), "the packed directory changed");
    Ok(())
}

// ---- C16 -----------------------------------------------------------------------------------

pub struct ZEntry {
    pub name: Vec<u8>,
    pub data: Vec<u8>,
    /// Unix mode, if the entry says it was made on Unix
    pub mode: Option<u32>,
    pub utf8: bool,
}

pub fn ze(name: &[u8], data: &[u8]) -> ZEntry {
    ZEntry { name: name.to_vec(), data: data.to_vec(), mode: Some(if name.ends_with(b"/") { 0o40755 } else { 0o100_644 }), utf8: true }
}

fn crc32(d: &[u8]) -> u32 {
    let mut c = !0u32;
    for b in d {
        c ^= u32::from(*b);
        for _ in 0..8 {
            c = if c & 1 == 1 { (c >> 1) ^ 0xEDB8_8320 } else { c >> 1 };
        }
    }
    !c
}

/// A zip archive with exactly these names
pub fn raw_zip(entries: &[ZEntry]) -> Vec<u8> {
    let mut z = vec![];
    let mut central = vec![];
    for e in entries {
        let off = z.len() as u32;
        let flags: u16 = if e.utf8 { 0x0800 } else { 0 };
        let common = |v: &mut Vec<u8>| {
            v.extend(20u16.to_le_bytes());
            v.extend(flags.to_le_bytes());
            v.extend(0u16.to_le_bytes());
            v.extend(0u16.to_le_bytes());
            v.extend(0x21u16.to_le_bytes());
            v.extend(crc32(&e.data).to_le_bytes());
            v.extend((e.data.len() as u32).to_le_bytes());
            v.extend((e.data.len() as u32).to_le_bytes());
            v.extend((e.name.len() as u16).to_le_bytes());
            v.extend(0u16.to_le_bytes());
        };
        z.extend(b"PK\x03\x04");
        common(&mut z);
        z.extend(&e.name);
        z.extend(&e.data);
        central.extend(b"PK\x01\x02");
        central.extend([20, if e.mode.is_some() { 3 } else { 0 }]);
        common(&mut central);
        central.extend([0u8; 6]); // comment, disk, internal attributes
        central.extend((e.mode.unwrap_or(0) << 16).to_le_bytes());
        central.extend(off.to_le_bytes());
        central.extend(&e.name);
    }
    let at = z.len() as u32;
    z.extend(&central);
    z.extend(b"PK\x05\x06\0\0\0\0");
    z.extend((entries.len() as u16).to_le_bytes());
    z.extend((entries.len() as u16).to_le_bytes());
    z.extend((central.len() as u32).to_le_bytes());
    z.extend(at.to_le_bytes());
    z.extend(0u16.to_le_bytes());
    z
}

/// Where an entry name leads below the target directory, if it never leaves it
pub fn inside(name: &[u8]) -> Option<Vec<Vec<u8>>> {
    if name.contains(&0) || name.starts_with(b"/") {
        return None;
    }
    let mut v: Vec<Vec<u8>> = vec![];
    for c in name.split(|b| *b == b'/') {
        match c {
            b"" | b"." => {}
            b".." => {
                v.pop()?;
            }
            c => v.push(c.to_vec()),
        }
    }
    Some(v)
}

/// Every mutation is below the target, or of the temporary archive.
fn contained(fs: &Mfs, before: &Snapshot, to: &str, what: &str) -> Res<()> {
    let tmp = format!("{}/", show_path(&std::env::temp_dir()));
    let below_to = |p: &str| p == to || p.starts_with(&format!("{to}/"));
    let mut temps = BTreeSet::new();
    let mut named: BTreeMap<u64, String> = BTreeMap::new();
    for e in fs.events() {
        match e {
            Ev::Create { ino, path } => {
                if path.starts_with(&tmp) {
                    temps.insert(ino);
                } else {
                    ensure!(below_to(&path), "{what}: created {path} outside of {to}");
                }
                named.insert(ino, path);
            }
            Ev::Open { ino, path, write } => {
                if write && !temps.contains(&ino) {
                    ensure!(below_to(&path), "{what}: opened {path} outside of {to} for writing");
                }
                named.insert(ino, path);
            }
            Ev::Write { ino, .. } | Ev::Truncate { ino, .. } if !temps.contains(&ino) => {
                ensure!(named.get(&ino).is_some_and(|p| below_to(p)), "{what}: wrote to {:?}", named.get(&ino));
            }
            Ev::Mkdir { path } => ensure!(below_to(&path) || to.starts_with(&format!("{path}/")), "{what}: made the directory {path} outside of {to}"),
            Ev::Rmdir { path } => ensure!(below_to(&path), "{what}: removed the directory {path}"),
            Ev::Unlink { ino, path } => ensure!(temps.contains(&ino) || below_to(&path), "{what}: removed {path}"),
            _ => {}
        }
    }
    let after = fs.snapshot("/");
    for (k, v) in before {
        ensure!(below_to(k) || after.get(k) == Some(v), "{what}: changed {k}");
    }
    for k in after.keys() {
        ensure!(below_to(k) || before.contains_key(k) || to.starts_with(&format!("{k}/")), "{what}: made {k}");
    }
    Ok(())
}

fn try_archive(ex: &Ex, entries: &[ZEntry], to: &str, prepare: impl Fn(&Mfs)) -> Res<(Arc<Mfs>, Result<String, String>)> {
    let fs = Mfs::new(ex);
    let m = sealed(&raw_zip(entries));
    fs.put_file("in", &m.file());
    // things that must not be touched, where escapes would lead
    for f in ["/w/a", "/a", "/w/to.x", "/b", "/w/b", "/etc/a"] {
        fs.put_file(f, b"precious");
    }
    fs.put_dir("/w/e");
    prepare(&fs);
    let fs = Arc::new(fs);
    let before = fs.snapshot("/");
    let run = Run::start_free(ex);
    let r = unpack(&fs, "in", None, to, PW)?;
    run.drain();
    drop(run);
    let what = entries.iter().map(|e| text(&e.name)).collect::<Vec<_>>().join(", ");
    let abs = format!("/w/{to}");
    contained(&fs, &before, &abs, &what)?;
    no_temp(&fs)?;
    Ok((fs, r))
}

/// Encrypted archives that aren't (quite) archives: whatever is said in them is refused or taken for what it says,
/// without a crash and without anything outside of the target being touched.
pub fn bad_archives(thorough: bool) -> Vec<Job> {
    fn feed(ex: &Ex, z: &[u8], what: &str) -> Res<bool> {
        let fs = Mfs::new(ex);
        let f = sealed(z).file();
        fs.put_file("in", &f);
        fs.put_file("/w/b", b"precious");
        let fs = Arc::new(fs);
        let before = fs.snapshot("/");
        let run = Run::start_free(ex);
        let r = unpack(&fs, "in", None, "to", PW).map_err(|v| Viol { msg: format!("{what}: {}", v.msg), ..v })?;
        run.drain();
        drop(run);
        contained(&fs, &before, "/w/to", what)?;
        no_temp(&fs)?;
        count("archives", 1);
        Ok(r.is_ok())
    }
    fn bases() -> Vec<(&'static str, Vec<u8>)> {
        let e: &[(&str, Option<&[u8]>)] = &[("d/", None), ("d/f", Some(b"content of f")), ("g", Some(&[7; 90]))];
        vec![
            ("plain", raw_zip(&[ze(b"d/", b""), ze(b"d/f", b"content of f"), ze(b"g", &[7; 90])])),
            ("stored", scen::archive(e, false)),
            ("zstd", scen::archive(e, true)),
            ("large", {
                use std::io::Write;
                let mut w = zip::ZipWriter::new(std::io::Cursor::new(vec![]));
                let o: zip::write::FileOptions<'_, ()> = zip::write::FileOptions::default().compression_method(zip::CompressionMethod::Zstd).large_file(true);
                w.add_directory("d", o).unwrap();
                w.start_file("d/f", o).unwrap();
                w.write_all(&[5; 200]).unwrap();
                w.finish().unwrap().into_inner()
            }),
            ("empty", raw_zip(&[])),
        ]
    }
    let mut jobs = vec![];
    for (i, (name, z)) in bases().into_iter().enumerate() {
        let n = z.len() as u32;
        jobs.push(Job::new(format!("an archive cut off ({name})"), 0, move |ex| {
            let z = &bases()[i].1;
            let n = ex.pick("length", n + 1) as usize;
            let mut o = format!("{}", feed(ex, &z[..n], &format!("{n} bytes of an archive"))?);
            // and what comes before it or after it
            for pad in [1usize, 5, 70_000] {
                o += &format!(" {}", feed(ex, &[&z[..n], &vec![0u8; pad][..]].concat(), "followed by zeros")?);
                o += &format!(" {}", feed(ex, &[&vec![b'P'; pad][..], &z[..n]].concat(), "after something else")?);
            }
            Ok(o)
        }));
        jobs.push(Job::new(format!("an archive with other bytes ({name})"), 0, move |ex| {
            let mut z = bases()[i].1.clone();
            let at = ex.pick("byte", n) as usize;
            let old = z[at];
            let all = [0u8, 1, 2, 4, 8, 12, 14, 20, 45, 51, 92, 93, 95, 97, 98, 99, b'.', b'/', 0x50, 0x7F, 0x80, 0xFE, 0xFF];
            let mut ok = 0;
            let vs: Vec<u8> = if thorough { (0..=255).collect() } else { all.to_vec() };
            for v in vs {
                z[at] = v;
                ok += usize::from(feed(ex, &z, &format!("byte {at} of an archive made {v}"))?);
            }
            z[at] = old;
            Ok(format!("{ok}"))
        }));
        jobs.push(Job::new(format!("an archive with other numbers ({name})"), 0, move |ex| {
            let z0 = bases()[i].1.clone();
            let at = ex.pick("byte", n) as usize;
            let mut ok = 0;
            for w in [2usize, 4, 8, 16] {
                for v in [0u64, 1, 0x7FFF, 0xFFFE, 0xFFFF, 0x7FFF_FFFF, 0xFFFF_FFFE, 0xFFFF_FFFF, 1 << 40, i64::MAX as u64, u64::MAX - 1, u64::MAX] {
                    if at + w > z0.len() || (w < 4 && v > 0xFFFF) || (w < 8 && v > 0xFFFF_FFFF) {
                        continue;
                    }
                    let mut z = z0.clone();
                    let b = v.to_le_bytes();
                    for k in 0..w {
                        z[at + k] = b[k % w.min(8)];
                    }
                    ok += usize::from(feed(ex, &z, &format!("{w} bytes at {at} of an archive made {v:#x}"))?);
                }
            }
            Ok(format!("{ok}"))
        }));
    }
    // the sizes an entry claims to have
    jobs.push(Job::new("entries that claim another size", 0, |ex| {
        let central = ex.pick("central sizes", 8);
        let local = ex.pick("local sizes", 8);
        let zip64 = ex.pick("sizes of 64 bits", 6);
        let n = |i: u32| [11u32, 0, 10, 12, 4096, 0x7FFF_FFFF, 0xFFFF_FFFE, 0xFFFF_FFFF][i as usize];
        let big = |i: u32| [11u64, 1 << 32, 1 << 36, 1 << 44, i64::MAX as u64, u64::MAX][i as usize];
        let data = b"the content";
        let crc = crc32(data);
        let extra: Vec<u8> = [&1u16.to_le_bytes()[..], &16u16.to_le_bytes(), &big(zip64).to_le_bytes(), &big(if zip64 > 0 && local % 2 == 1 { 0 } else { zip64 }).to_le_bytes()].concat();
        let mut ok = 0;
        for method in [0u16, 93] {
            for (cs, us) in [(11, n(central)), (n(central), 11), (n(central), n(central))] {
                let mut z = vec![];
                let common = |v: &mut Vec<u8>, c: u32, u: u32| {
                    v.extend(45u16.to_le_bytes());
                    v.extend(0u16.to_le_bytes());
                    v.extend(method.to_le_bytes());
                    v.extend([0, 0, 0x21, 0]);
                    v.extend(crc.to_le_bytes());
                    v.extend(c.to_le_bytes());
                    v.extend(u.to_le_bytes());
                    v.extend(1u16.to_le_bytes());
                    v.extend((extra.len() as u16).to_le_bytes());
                };
                z.extend(b"PK\x03\x04");
                common(&mut z, n(local), n(local));
                z.push(b'f');
                z.extend(&extra);
                z.extend(data);
                let at = z.len() as u32;
                z.extend(b"PK\x01\x02");
                z.extend([45, 3]);
                common(&mut z, cs, us);
                z.extend([0u8; 6]);
                z.extend((0o100_644u32 << 16).to_le_bytes());
                z.extend(0u32.to_le_bytes());
                z.push(b'f');
                z.extend(&extra);
                let len = z.len() as u32 - at;
                z.extend(b"PK\x05\x06\0\0\0\0\x01\0\x01\0");
                z.extend(len.to_le_bytes());
                z.extend(at.to_le_bytes());
                z.extend(0u16.to_le_bytes());
                ok += usize::from(feed(ex, &z, &format!("an entry of 11 bytes that claims {cs:#x} {us:#x} {:#x}", big(zip64)))?);
            }
        }
        Ok(format!("{ok}"))
    }));
    jobs
}

fn names_over(parts: &[&[u8]], depth: usize) -> Vec<Vec<u8>> {
    let mut level: Vec<Vec<&[u8]>> = vec![vec![]];
    let mut out = BTreeSet::new();
    for _ in 0..depth {
        level = level.iter().flat_map(|v| parts.iter().map(move |c| [&v[..], &[*c][..]].concat())).collect();
        for v in &level {
            let j = v.join(&b'/');
            out.insert(j.clone());
            out.insert([b"/", &j[..]].concat());
            out.insert([&j[..], b"/"].concat());
        }
    }
    out.remove(&b""[..]);
    out.into_iter().collect()
}

pub fn c16(thorough: bool) -> Vec<Job> {
    let mut jobs = vec![];
    let parts: &[&[u8]] = &[b"a", b"e", b"..", b".", b"", b"a\0", b"..\\b", b"\\", b"...", b".. "];
    let names = names_over(parts, if thorough { 5 } else { 4 });
    for (i, chunk) in names.chunks(500).enumerate() {
        let chunk = chunk.to_vec();
        jobs.push(Job::new(format!("entry names, part {i}"), 0, move |ex| {
            let (mut extracted, mut skipped, mut failed) = (0, 0, 0);
            for n in &chunk {
                let (fs, r) = try_archive(ex, &[ze(n, b"data")], "to", |_| ())?;
                count("archives", 1);
                let at = inside(n);
                match (&r, &at) {
                    (Ok(_), Some(at)) => {
                        let joined = [b"/w/to/", &at.join(&b'/')[..]].concat();
                        let is_dir = n.ends_with(b"/");
                        let got = fs.snapshot("/");
                        let entry = got.get(&show_path(&p(&joined)));
                        if at.is_empty() {
                            // the target itself
                        } else if is_dir {
                            ensure!(entry == Some(&None), "the directory {} was not extracted", text(n));
                        } else {
                            ensure!(entry == Some(&Some(b"data".to_vec())), "the file {} was not extracted", text(n));
                        }
                        extracted += 1;
                    }
                    (Ok(_), None) => skipped += 1,
                    (Err(e), _) => {
                        // a plain name has to work
                        let simple = at.as_ref().is_some_and(|a| a.len() == 1 && a[0] == *n);
                        ensure!(!simple, "unpacking the file {} failed: {e}", text(n));
                        failed += 1;
                    }
                }
            }
            Ok(format!("{extracted} extracted, {skipped} skipped, {failed} failed"))
        }));
    }
    // escapes beside honest entries, whose extraction they must not prevent
    let escapes = names_over(&[b"a", b"..", b"", b"."], 3).into_iter().filter(|n| inside(n).is_none()).collect::<Vec<_>>();
    for (i, chunk) in escapes.chunks(40).enumerate() {
        let chunk = chunk.to_vec();
        jobs.push(Job::new(format!("escaping entries beside honest ones, part {i}"), 0, move |ex| {
            for n in &chunk {
                for first in [true, false] {
                    let mut v = vec![ze(b"dir/", b""), ze(b"dir/file", b"honest"), ze(b"top", b"honest too")];
                    v.insert(if first { 0 } else { 3 }, ze(n, b"evil"));
                    let (fs, r) = try_archive(ex, &v, "to", |_| ())?;
                    count("archives", 1);
                    ensure!(r.is_ok(), "an archive with {} fails: {r:?}", text(n));
                    ensure!(fs.content("to/dir/file") == Some(b"honest".to_vec()) && fs.content("to/top") == Some(b"honest too".to_vec()), "beside {}, honest entries weren't extracted", text(n));
                    ensure!(below(&fs, "/w/to").len() == 3, "{} left something", text(n));
                }
            }
            Ok("ok".into())
        }));
    }
    // pairs of entries: duplicates, files and directories of the same name, links and what is below them
    let kinds: Vec<(&[u8], u32, &[u8])> = vec![
        (b"a", 0o100_644, b"1"),
        (b"a/", 0o40755, b""),
        (b"a", 0o120_777, b"../b"),
        (b"a", 0o120_777, b"/b"),
        (b"a", 0o120_777, b".."),
        (b"a/b", 0o100_644, b"2"),
        (b"a/../../b", 0o100_644, b"3"),
        (b"./a", 0o100_644, b"4"),
        (b"a//b", 0o100_644, b"5"),
        (b"a/../b", 0o100_644, b"6"),
        (b"b", 0o100_644, b"7"),
        (b"../b", 0o100_644, b"8"),
        (b"/b", 0o100_644, b"9"),
        (b"e/../../b", 0o100_644, b"10"),
        (b"a", 0o104_755, b"suid"),
        (b"a", 0o060_644, b"device"),
        (b"a\\..\\..\\b", 0o100_644, b"11"),
    ];
    let n = kinds.len();
    for i in 0..n {
        let kinds = kinds.clone();
        jobs.push(Job::new(format!("entry {} ({:o}) with every other, before and after, and a third", text(kinds[i].0), kinds[i].1), 0, move |ex| {
            let mk = |k: &(&[u8], u32, &[u8])| ZEntry { name: k.0.to_vec(), data: k.2.to_vec(), mode: Some(k.1), utf8: true };
            let mut ok = 0;
            for j in 0..n {
                for l in std::iter::once(n).chain(0..if thorough { n } else { 6 }) {
                    let mut v = vec![mk(&kinds[i]), mk(&kinds[j])];
                    if l < n {
                        v.push(mk(&kinds[l]));
                    }
                    let (fs, r) = try_archive(ex, &v, "to", |_| ())?;
                    count("archives", 1);
                    ensure!(fs.snapshot("/w/to").values().all(|v| v.as_ref().is_none_or(|d| !d.starts_with(b"link to"))), "a link was made");
                    if r.is_ok() {
                        ok += 1;
                        // the last entry with a name decides its content
                        for e in &v {
                            if let Some(at) = inside(&e.name) {
                                let key = show_path(&p(&[b"/w/to/", &at.join(&b'/')[..]].concat()));
                                ensure!(at.is_empty() || fs.snapshot("/").contains_key(&key), "{} was not extracted", text(&e.name));
                            }
                        }
                    }
                }
            }
            Ok(format!("{ok} succeed"))
        }));
    }
    // existing files and directories in and beside the target, other spellings of the target
    for to in ["to", "e", "to/x/y"] {
        for existing in 0..4 {
            jobs.push(Job::new(format!("target {to}, existing {existing}"), 0, move |ex| {
                let mut o = String::new();
                for v in [
                    vec![ze(b"a", b"new"), ze(b"../a", b"evil")],
                    vec![ze(b"s/", b""), ze(b"s/a", b"new"), ze(b"s/../../a", b"evil")],
                    vec![ze(b"../to.x", b"evil"), ze(b"../tox/a", b"evil"), ze(b"a", b"new")],
                    vec![ze(b"../../../../../../../../etc/a", b"evil"), ze(b"a", b"new")],
                ] {
                    let (fs, r) = try_archive(ex, &v, to, |fs| match existing {
                        1 => {
                            fs.put_file(format!("{to}/a"), b"older and longer than new");
                        }
                        2 => fs.put_dir(format!("{to}/a")),
                        3 => {
                            fs.put_file(format!("{to}/s"), b"in the way");
                        }
                        _ => {}
                    })?;
                    count("archives", 1);
                    if r.is_ok() {
                        for e in &v {
                            if inside(&e.name).is_some() && !e.name.ends_with(b"/") {
                                let q = format!("{to}/{}", text(&e.name));
                                ensure!(fs.content(&q) == Some(e.data.clone()), "{q} isn't the entry's content");
                            }
                        }
                    }
                    o += if r.is_ok() { "+" } else { "-" };
                }
                Ok(o)
            }));
        }
    }
    // names that aren't UTF-8, and archives made elsewhere
    jobs.push(Job::new("encodings and other systems", 0, |ex| {
        for n in [&b"\xff\xfe"[..], b"\x80/\x81", b"..\xff/a", b"../\xff", b"/\xff", b"\xc0\xae\xc0\xae/a", b"\xc0\xae\xc0\xae/\xc0\xae\xc0\xae/b"] {
            for utf8 in [false, true] {
                for mode in [None, Some(0o100_644)] {
                    let e = ZEntry { name: n.to_vec(), data: b"x".to_vec(), mode, utf8 };
                    try_archive(ex, &[e], "to", |_| ())?;
                    count("archives", 1);
                }
            }
        }
        Ok("ok".into())
    }));
    // declined entries are neither written nor emptied
    jobs.push(Job::new("declined entries", 0, |ex| {
        let v = [ze(b"a", b"1"), ze(b"d/", b""), ze(b"d/b", b"2"), ze(b"c", b"3")];
        for mask in 0..16u32 {
            let fs = Mfs::new(ex);
            fs.put_file("in", &sealed(&raw_zip(&v)).file());
            fs.put_dir("to/d");
            for f in ["to/a", "to/d/b", "to/c"] {
                fs.put_file(f, b"existing");
            }
            let fs = Arc::new(fs);
            let before = fs.snapshot("/");
            let asked = Arc::new(std::sync::Mutex::new(vec![]));
            let (asked2, v2) = (asked.clone(), ["to/a", "to/d", "to/d/b", "to/c"]);
            let run = Run::start_free(ex);
            let r = unpack_filtered(
                &fs,
                "in",
                None,
                "to",
                PW,
                Some(Box::new(move |q| {
                    let q = q.components().collect::<PathBuf>();
                    asked2.lock().unwrap().push(q.clone());
                    match v2.iter().position(|n| Path::new(n) == q) {
                        Some(i) => mask & (1 << i) != 0,
                        None => false,
                    }
                })),
            )?;
            run.drain();
            drop(run);
            ensure!(r.is_ok(), "failed: {r:?}");
            contained(&fs, &before, "/w/to", "declining")?;
            let asked = asked.lock().unwrap().clone();
            for q in v2 {
                ensure!(asked.iter().filter(|a| **a == Path::new(q)).count() == 1, "asked about {q} {} times", asked.iter().filter(|a| **a == Path::new(q)).count());
            }
            for (i, (q, c)) in [("to/a", b"1"), ("to/d", b" "), ("to/d/b", b"2"), ("to/c", b"3")].into_iter().enumerate() {
                if i != 1 {
                    let want: &[u8] = if mask & (1 << i) != 0 { c } else { b"existing" };
                    ensure!(fs.content(q) == Some(want.to_vec()), "answers {mask:04b}: {q} is {:?}", fs.content(q));
                }
            }
        }
        Ok("ok".into())
    }));
    // the real storage, as an unprivileged user in a scratch directory
    let some = names_over(&[b"a", b"..", b".", b"", b"..\\b"], 3);
    for (i, chunk) in some.chunks(60).enumerate() {
        let chunk = chunk.to_vec();
        jobs.push(Job::new(format!("real directories: entry names, part {i}"), 0, move |_| {
            for n in &chunk {
                let dir = Dir::new();
                let root = dir.0.join("1/2/3/4/5");
                std::fs::create_dir_all(&root).unwrap();
                std::fs::write(root.join("a"), b"precious").unwrap();
                std::fs::write(root.join("in"), sealed(&raw_zip(&[ze(n, b"evil"), ze(b"honest", b"data")])).file()).unwrap();
                let abs = Path::new("/a").exists();
                let before = real_tree(&dir.0);
                let stor = Arc::new(FileStorage);
                let r = sut("unpack", || -> Result<(), String> {
                    let i = stor.read_file(root.join("in")).map_err(|e| e.to_string())?;
                    tools::unpack::execute(
                        stor.clone(),
                        tools::unpack::Request {
                            reader: i.try_reader().map_err(|e| e.to_string())?,
                            header_reader: None,
                            raw_key: pw(PW),
                            output_dir_path: root.join("to"),
                            on_decrypted_header: None,
                            on_archive_info: None,
                            on_zip_file: None,
                        },
                    )
                    .map_err(|e| e.to_string())
                })?;
                let after = real_tree(&dir.0);
                let to = b"1/2/3/4/5/to".to_vec();
                for (k, v) in &after {
                    ensure!(k.starts_with(&to) || before.get(k) == Some(v), "{}: {} was made or changed", text(n), text(k));
                }
                ensure!(before.keys().all(|k| after.contains_key(k)), "{}: something was removed", text(n));
                ensure!(Path::new("/a").exists() == abs, "{}: /a was made", text(n));
                if inside(n).is_none() {
                    ensure!(r.is_ok() && after.get(&b"1/2/3/4/5/to/honest"[..]) == Some(&Some(b"data".to_vec())), "{}: an honest entry beside it wasn't extracted: {r:?}", text(n));
                }
                count("real_archives", 1);
            }
            Ok("ok".into())
        }));
    }
    jobs
}

// ---- C17 -----------------------------------------------------------------------------------

#[derive(Default, Clone)]
struct TempState {
    created: bool,
    removed: bool,
    truncated: bool,
    /// bytes the file had at most
    extent: usize,
    content: Vec<u8>,
    /// not all zero over the full extent when its content went away
    exposed: Option<String>,
}

fn temp_states(fs: &Mfs) -> BTreeMap<u64, TempState> {
    let tmp = format!("{}/", show_path(&std::env::temp_dir()));
    let mut m: BTreeMap<u64, TempState> = BTreeMap::new();
    let gone = |t: &mut TempState| {
        if t.exposed.is_none() && !t.truncated {
            if t.content.len() < t.extent {
                t.exposed = Some(format!("only {} of {} bytes were left to overwrite", t.content.len(), t.extent));
            } else if let Some(i) = t.content.iter().position(|b| *b != 0) {
                t.exposed = Some(format!("byte {i} of {} wasn't overwritten with zeros", t.extent));
            }
        }
    };
    for e in fs.events() {
        match e {
            Ev::Create { ino, path } if path.starts_with(&tmp) => {
                m.insert(ino, TempState { created: true, ..Default::default() });
            }
            Ev::Write { ino, off, data } => {
                if let Some(t) = m.get_mut(&ino) {
                    let end = off as usize + data.len();
                    if t.content.len() < end {
                        t.content.resize(end, 0);
                    }
                    t.content[off as usize..end].copy_from_slice(&data);
                    t.extent = t.extent.max(end);
                    t.truncated = false;
                }
            }
            Ev::Truncate { ino, to } => {
                if let Some(t) = m.get_mut(&ino) {
                    gone(t);
                    t.content.truncate(to);
                    t.truncated = true;
                }
            }
            Ev::Unlink { ino, .. } => {
                if let Some(t) = m.get_mut(&ino) {
                    gone(t);
                    t.removed = true;
                }
            }
            _ => {}
        }
    }
    m
}

const MARK: &[u8] = b"<this is plaintext that nobody else may see>";

/// Files outside the temporary directory that hold plaintext, besides the given ones
fn plaintext_elsewhere(fs: &Mfs, allowed: &[&str]) -> Res<()> {
    for (k, v) in fs.snapshot("/") {
        if allowed.iter().any(|a| k == *a || k.starts_with(&format!("{a}/"))) {
            continue;
        }
        if let Some(d) = v {
            ensure!(!d.windows(MARK.len()).any(|w| w == MARK), "{k} holds plaintext");
        }
    }
    Ok(())
}

enum Stage {
    Pack { zstd: bool, detached: bool, large: bool },
    Unpack { zstd: bool, large: bool, what: &'static str },
}

fn staged(ex: &Ex, stage: &Stage, faults: bool, policy: Policy) -> Res<(Arc<Mfs>, Result<String, String>)> {
    let mut fs = Mfs::new(ex);
    let big = |large: bool| if large { [MARK, &bytes(5, BLOCK + 50_000)].concat() } else { MARK.to_vec() };
    match stage {
        Stage::Pack { large, .. } => {
            fs.put_file("src/f", &big(*large));
            fs.put_file("src/s/g", MARK);
            fs.put_dir("src/e");
            fs.put_file("out", b"");
            fs.put_file("hdr", b"");
        }
        Stage::Unpack { zstd, large, what } => {
            let b = big(*large);
            let entries: Vec<(&str, Option<&[u8]>)> = match *what {
                "missing directory" => vec![("f", Some(&b)), ("no/such/file", Some(MARK))],
                "conflict" => vec![("f/", None), ("f", Some(&b))],
                _ => vec![("f", Some(&b)), ("s", None), ("s/g", Some(MARK)), ("e", None)],
            };
            let mut z = scen::archive(&entries, *zstd);
            match *what {
                "no archive" => z = MARK.repeat(20),
                "cut archive" => {
                    let n = z.len();
                    z.truncate(n - 5);
                }
                "damaged archive" => {
                    // a stored file whose checksum is wrong
                    let i = z.windows(MARK.len()).position(|w| w == MARK).unwrap_or(40);
                    z[i] ^= 1;
                }
                "empty archive" => z = scen::archive(&[], false),
                "nothing" => z = vec![],
                _ => {}
            }
            let mut f = sealed(&z).file();
            match *what {
                "cut payload" => {
                    let n = f.len();
                    f.truncate(n - 1);
                }
                "damaged payload" => {
                    let n = f.len();
                    f[n - 1] ^= 1;
                }
                "no header" => f[0] = 0,
                _ => {}
            }
            fs.put_file("in", &f);
        }
    }
    fs.faults = faults;
    fs.stream = Box::new(move |_, _| policy);
    let fs = Arc::new(fs);
    let run = Run::start_free(ex);
    if faults {
        run.fail_spawn();
    }
    let r = match stage {
        Stage::Pack { zstd, detached, .. } => pack(&fs, &["src"], "out", detached.then_some("hdr"), *zstd, Alg::XChaCha, Kdf::B5, PW)?,
        Stage::Unpack { what, .. } => {
            let pw: &[u8] = if *what == "wrong password" { b"wrong" } else { PW };
            if *what == "declined" {
                unpack_filtered(&fs, "in", None, "to", pw, Some(Box::new(|_| false)))?
            } else {
                unpack(&fs, "in", None, "to", pw)?
            }
        }
    };
    // what is there when the call returns
    fs.ev(Ev::Mark("returned".into()));
    let states = temp_states(&fs);
    let live = no_temp(&fs);
    run.drain();
    drop(run);
    ex.close();
    let _ = (states, live);
    Ok((fs, r))
}

fn staging(name: String, stage: Stage, faults: bool, policy: Policy, bound: usize) -> Job {
    let base: OnceLock<Vec<String>> = OnceLock::new();
    Job::new(name, bound, move |ex| {
        let (fs, r) = staged(ex, &stage, faults, policy)?;
        // which calls come after the last read of the temporary archive, when nothing fails
        let late = base.get_or_init(|| {
            let e2 = Ex::new(vec![]);
            match staged(&e2, &stage, faults, policy) {
                Ok(_) => {
                    let labels: Vec<String> = e2.trace().into_iter().map(|p| p.label).collect();
                    let last = labels.iter().rposition(|l| l.starts_with("temp.read")).map_or(0, |i| i + 1);
                    labels[last..].to_vec()
                }
                Err(_) => vec![],
            }
        });
        let failed: Vec<String> = ex.trace().into_iter().filter(|p| p.choice != 0).map(|p| p.label).collect();
        let in_remove = failed.iter().any(|l| l.contains("remove_file"));
        let in_erase = failed.iter().any(|l| (l.starts_with("temp.") || l.contains("file_len")) && late.contains(l));
        // half a write and then a device that stays full: the temporary file can't be overwritten
        let full = ex.trace().iter().any(|p| p.choice == 3 && p.label.starts_with("temp.write"));
        let temps = temp_states(&fs);
        let told = || format!("({} after {failed:?})", if let Err(e) = &r { e.clone() } else { "success".into() });
        for t in temps.values() {
            if in_remove {
                ensure!(r.is_err(), "the temporary archive couldn't be removed, but success was reported {}", told());
                continue;
            }
            ensure!(t.removed, "the temporary archive wasn't removed {}", told());
            if !in_erase && !full {
                if let Some(e) = &t.exposed {
                    viol!("the temporary archive was removed, but {e} {}", told());
                }
            } else {
                ensure!(r.is_err() || t.exposed.is_none(), "the temporary archive couldn't be overwritten ({:?}), but success was reported {}", t.exposed, told());
            }
        }
        // exactly at the moment of return
        let ev = fs.events();
        let at = ev.iter().position(|e| matches!(e, Ev::Mark(_))).unwrap();
        for e in &ev[at..] {
            if let Ev::Unlink { ino, .. } | Ev::Write { ino, .. } | Ev::Truncate { ino, .. } = e {
                ensure!(!temps.contains_key(ino), "the temporary archive was still being erased when the call returned");
            }
        }
        if !in_remove {
            no_temp(&fs)?;
        }
        match &stage {
            Stage::Pack { .. } => plaintext_elsewhere(&fs, &["/w/src"])?,
            Stage::Unpack { .. } => plaintext_elsewhere(&fs, &["/w/to"])?,
        }
        if r.is_ok() && failed.is_empty() {
            ensure!(!temps.is_empty() || matches!(stage, Stage::Unpack { .. }), "nothing was staged");
        }
        Ok(format!("{} temporary files, {} {failed:?}", temps.len(), r.is_ok()))
    })
}

pub fn c17(thorough: bool) -> Vec<Job> {
    let mut jobs = vec![];
    let bound = if thorough { 2 } else { 1 };
    for zstd in [false, true] {
        for detached in [false, true] {
            jobs.push(staging(format!("pack zstd={zstd} detached={detached}: every fault"), Stage::Pack { zstd, detached, large: false }, true, Policy::Fault, bound));
        }
        jobs.push(staging(format!("pack zstd={zstd}: splits"), Stage::Pack { zstd, detached: false, large: false }, false, Policy::Choose, 1));
        for what in ["", "wrong password", "no archive", "cut archive", "damaged archive", "empty archive", "nothing", "cut payload", "damaged payload", "no header", "missing directory", "conflict", "declined"] {
            if what == "conflict" && zstd {
                continue;
            }
            jobs.push(staging(format!("unpack zstd={zstd} {what}: every fault"), Stage::Unpack { zstd, large: false, what }, true, Policy::Fault, bound));
        }
        jobs.push(staging(format!("unpack zstd={zstd}: splits"), Stage::Unpack { zstd, large: false, what: "" }, false, Policy::Choose, 1));
    }
    for (i, policy) in [Policy::Full, Policy::Ragged, Policy::AtMost(100_003), Policy::Interrupted(70_000)].into_iter().enumerate() {
        jobs.push(staging(format!("large pack under {policy:?}"), Stage::Pack { zstd: i % 2 == 1, detached: false, large: true }, false, policy, 0));
        for what in ["", "cut payload", "wrong password", "damaged archive"] {
            jobs.push(staging(format!("large unpack {what} under {policy:?}"), Stage::Unpack { zstd: i % 2 == 1 && what.is_empty(), large: true, what }, false, policy, 0));
        }
    }
    if thorough {
        jobs.push(staging("large pack: every fault".into(), Stage::Pack { zstd: false, detached: false, large: true }, true, Policy::Fault, 1));
        jobs.push(staging("large unpack: every fault".into(), Stage::Unpack { zstd: false, large: true, what: "" }, true, Policy::Fault, 1));
    }
    jobs
}

// ---- C18 -----------------------------------------------------------------------------------

/// Judges the history of one erased file: `passes` complete overwrites, then zeros, each flushed,
/// then it may go.  `len`: its length before.
pub fn overwritten(evs: &[Ev], ino: u64, old: &[u8], passes: usize) -> Res<()> {
    let len = old.len();
    let mut covered = vec![false; len];
    let mut left = len;
    let mut content = old.to_vec();
    // content at each complete and flushed overwrite
    let mut done: Vec<Vec<u8>> = vec![];
    let mut dirty = false;
    let mut gone = false;
    for e in evs {
        match e {
            Ev::Write { ino: i, off, data } if *i == ino => {
                ensure!(!gone, "the file was written after it had been discarded");
                let (a, b) = (*off as usize, *off as usize + data.len());
                ensure!(b <= len, "bytes up to {b} were written to a file of {len}");
                content[a..b].copy_from_slice(data);
                for c in &mut covered[a..b] {
                    if !*c {
                        *c = true;
                        left -= 1;
                    }
                }
                dirty = true;
            }
            Ev::Flush { ino: i } if *i == ino => {
                if left == 0 && (dirty || len == 0) {
                    done.push(content.clone());
                    covered = vec![false; len];
                    left = len;
                    dirty = false;
                }
            }
            Ev::Truncate { ino: i, .. } | Ev::Unlink { ino: i, .. } if *i == ino => {
                if gone {
                    continue;
                }
                gone = true;
                if len > 0 {
                    ensure!(done.len() > passes, "the file was discarded after {} of {} overwrites", done.len(), passes + 1);
                    ensure!(content.iter().all(|b| *b == 0), "the file was discarded although its bytes weren't zero");
                }
            }
            _ => {}
        }
    }
    if len == 0 {
        return Ok(());
    }
    ensure!(left == len, "an overwrite is incomplete ({left} of {len} bytes missing) or wasn't flushed");
    ensure!(done.len() == passes + 1, "{} overwrites instead of {} and one with zeros", done.len(), passes);
    ensure!(done[passes].iter().all(|b| *b == 0), "the last overwrite isn't zeros");
    for (k, d) in done[..passes].iter().enumerate() {
        random_looking(d, old, k)?;
        for e in &done[..k] {
            if len >= 16 {
                ensure!(d != e, "two overwrites wrote the same bytes");
                let same = d.iter().zip(e).filter(|(a, b)| a == b).count();
                ensure!(same < len / 16 + 12, "two overwrites wrote {same} of {len} bytes alike");
            }
        }
    }
    Ok(())
}

fn random_looking(d: &[u8], old: &[u8], k: usize) -> Res<()> {
    let len = d.len();
    if len < 32 {
        return Ok(());
    }
    let mut hist = [0usize; 256];
    for b in d {
        hist[*b as usize] += 1;
    }
    let most = *hist.iter().max().unwrap();
    ensure!(most < len / 16 + 12, "overwrite {k}: one byte value makes up {most} of {len} bytes");
    let same = d.iter().zip(old).filter(|(a, b)| a == b).count();
    ensure!(same < len / 16 + 12, "overwrite {k}: {same} of {len} bytes are as they were");
    // no 16-byte block appears twice
    let mut seen = std::collections::HashSet::new();
    for c in d.chunks_exact(16) {
        ensure!(seen.insert(c), "overwrite {k} repeats a block");
    }
    Ok(())
}

fn erased(ex: &Ex, len: usize, passes: i32, policy: Policy, seed: u64) -> Res<(Arc<Mfs>, Result<String, String>, u64, Vec<u8>)> {
    struct Tape;
    impl Drop for Tape {
        fn drop(&mut self) {
            mctape::uninstall();
        }
    }
    if seed > 0 {
        // entropy that is never handed out twice in this process
        static N: std::sync::atomic::AtomicU64 = std::sync::atomic::AtomicU64::new(0);
        let n = N.fetch_add(1, std::sync::atomic::Ordering::Relaxed);
        mctape::install(mctape::Mode::Entropy((seed << 40) + n));
    }
    let _tape = Tape;
    let mut fs = Mfs::new(ex);
    let old = bytes(len as u64 + 1, len);
    fs.put_file("d/in", &old);
    fs.put_file("d/other", b"other");
    fs.stream = Box::new(move |_, _| policy);
    fs.faults = policy == Policy::Fault;
    let ino = fs.ino("d/in").unwrap();
    let fs = Arc::new(fs);
    let before = fs.snapshot("/");
    let run = Run::start_free(ex);
    let r = scen::erase(&fs, "d/in", passes)?;
    run.drain();
    drop(run);
    ex.close();
    let evs = fs.events();
    for e in &evs {
        if let Ev::Create { path, .. } = e {
            viol!("erasing created {path}");
        }
    }
    let after = fs.snapshot("/");
    for (k, v) in &before {
        if k != "/w/d/in" {
            ensure!(after.get(k) == Some(v), "erasing changed {k}");
        }
    }
    ensure!(after.keys().all(|k| before.contains_key(k)), "erasing made a file");
    match &r {
        Ok(_) => {
            ensure!(!after.contains_key("/w/d/in"), "success was reported but the file is there");
            overwritten(&evs, ino, &old, passes.max(0) as usize)?;
        }
        Err(_) => {
            // nothing goes before it has been overwritten
            let mut done = 0;
            let mut cov = 0usize;
            let mut seen = vec![false; len];
            let mut overwrite_failed = false;
            for e in &evs {
                match e {
                    Ev::Write { off, data, .. } => {
                        for i in *off as usize..*off as usize + data.len() {
                            ensure!(i < len, "wrote beyond the end");
                            if !seen[i] {
                                seen[i] = true;
                                cov += 1;
                            }
                        }
                    }
                    Ev::Flush { .. } if cov == len => {
                        done += 1;
                        cov = 0;
                        seen.fill(false);
                    }
                    Ev::Fault { what } if !what.starts_with("remove") => overwrite_failed = true,
                    Ev::Truncate { .. } | Ev::Unlink { .. } => {
                        ensure!(!overwrite_failed, "the file was discarded although overwriting it had failed");
                        ensure!(len == 0 || done == passes.max(0) + 1, "the file was discarded after {done} overwrites");
                    }
                    _ => {}
                }
            }
        }
    }
    Ok((fs, r, ino, old))
}

pub fn c18(thorough: bool) -> Vec<Job> {
    let mut jobs = vec![];
    let sizes: Vec<usize> = {
        let mut v: Vec<usize> = (0..40).collect();
        v.extend([63, 64, 255, 256, 510, 511, 512, 513, 514, 1000, 1023, 1024, 1025, 1535, 1536, 1537, 4095, 4096, 4097, 8192, 65_535, 65_536, 65_537, 100_000]);
        v
    };
    let passes = if thorough { vec![0, 1, 2, 3, 4, 5, 7, 8, 15, 16, 17, 35, 100] } else { vec![0, 1, 2, 3, 5, 8, 35] };
    for &n in &passes {
        let sizes = sizes.clone();
        jobs.push(Job::new(format!("{n} passes, all sizes"), 0, move |ex| {
            ex.horizon(u64::MAX);
            for &len in &sizes {
                let (_, r, ..) = erased(ex, len, n, Policy::Full, 7)?;
                ensure!(r.is_ok(), "erasing {len} bytes failed: {r:?}");
                count("erasures", 1);
            }
            Ok("ok".into())
        }));
        for policy in [Policy::AtMost(1), Policy::AtMost(7), Policy::AtMost(511), Policy::Ragged, Policy::Interrupted(100)] {
            jobs.push(Job::new(format!("{n} passes under {policy:?}"), 0, move |ex| {
                ex.horizon(u64::MAX);
                let mut o = String::new();
                for len in [0usize, 1, 511, 512, 513, 1300] {
                    let (_, r, ..) = erased(ex, len, n, policy, 8)?;
                    if !matches!(policy, Policy::Interrupted(_)) {
                        ensure!(r.is_ok(), "erasing {len} bytes failed: {r:?}");
                    }
                    o.push(if r.is_ok() { '+' } else { '-' });
                }
                Ok(o)
            }));
        }
    }
    jobs.push(Job::new("large files", 0, move |ex| {
        ex.horizon(u64::MAX);
        let mut sizes = vec![3 * BLOCK + 77, 4 * BLOCK, 4 * BLOCK + 1, 8 * BLOCK + 511, 16 * BLOCK, 16 * BLOCK + 1, 17 * BLOCK - 1, 32 * BLOCK + 513, 64 * BLOCK + 1];
        if thorough {
            sizes.push(128 * BLOCK + 1);
            sizes.push(257 * BLOCK + 1);
        }
        let n = sizes[ex.pick("size", sizes.len() as u32) as usize];
        let (_, r, ..) = erased(ex, n, 1, Policy::Full, 9)?;
        ensure!(r.is_ok(), "failed: {r:?}");
        Ok(format!("{n}"))
    }));
    for n in [0, 1, 2, 3] {
        for len in [0usize, 5, 512, 700, 1400] {
            for policy in [Policy::Choose, Policy::Fault] {
                jobs.push(Job::new(format!("{n} passes over {len} bytes under {policy:?}"), if thorough { 3 } else { 2 }, move |ex| {
                    let (_, r, ..) = erased(ex, len, n, policy, 10)?;
                    Ok(format!("{} {:?}", r.is_ok(), ex.notes()))
                }));
            }
        }
    }
    // what is written depends on the system's entropy and is never the same twice
    jobs.push(Job::new("unpredictable bytes", 0, |ex| {
        let mut all: Vec<Vec<u8>> = vec![];
        for seed in 1..=8u64 {
            let (fs, r, ino, _) = erased(ex, 1200, 2, Policy::Full, seed)?;
            ensure!(r.is_ok(), "failed: {r:?}");
            let mut content = vec![0u8; 1200];
            for e in fs.events() {
                match e {
                    Ev::Write { ino: i, off, data } if i == ino => content[off as usize..off as usize + data.len()].copy_from_slice(&data),
                    Ev::Flush { ino: i } if i == ino && content.iter().any(|b| *b != 0) => all.push(content.clone()),
                    _ => {}
                }
            }
        }
        for i in 0..all.len() {
            for j in 0..i {
                let same = all[i].iter().zip(&all[j]).filter(|(a, b)| a == b).count();
                ensure!(same < 1200 / 16, "two overwrites have {same} bytes in common whatever the entropy");
            }
        }
        Ok(format!("{} overwrites", all.len()))
    }));
    // names of the file, links to it
    jobs.push(Job::new("file names", 0, |ex| {
        for name in ["d/in", "./d/in", "/w/d/in", "d/../d/in", "d//in"] {
            let fs = Mfs::new(ex);
            let old = bytes(1, 600);
            fs.put_file("d/in", &old);
            let ino = fs.ino("d/in").unwrap();
            let fs = Arc::new(fs);
            let r = scen::erase(&fs, name, 1)?;
            ensure!(r.is_ok() && fs.content("d/in").is_none(), "erasing {name}: {r:?}");
            overwritten(&fs.events(), ino, &old, 1)?;
        }
        Ok("ok".into())
    }));
    jobs
}

// ---- C21 -----------------------------------------------------------------------------------

pub fn c21(thorough: bool) -> Vec<Job> {
    let mut jobs = vec![];
    let mut scens = scen::all_small();
    scens.extend(scen::all_big());
    for s in scens {
        if s.sources.is_empty() || s.group == Group::Erase {
            continue;
        }
        let s = Arc::new(s);
        let mut plans = vec![(Policy::Full, 0, false), (Policy::Ragged, 0, false), (Policy::Interrupted(usize::MAX), 0, false)];
        if !s.big || s.group == Group::File || thorough {
            plans.push((Policy::Fault, if thorough && !s.big && s.group == Group::File { 2 } else { 1 }, true));
        }
        for (policy, bound, faults) in plans {
            let s = s.clone();
            jobs.push(Job::new(format!("{} under {policy:?}", s.name), bound, move |ex| {
                let mut inos: BTreeMap<u64, String> = BTreeMap::new();
                let (fs, before, r) = scen::execute(&s, ex, |fs| {
                    fs.faults = faults;
                    fs.stream = Box::new(move |_, _| policy);
                    for src in &s.sources {
                        let at = format!("/w/{src}");
                        for k in fs.snapshot(&at).keys() {
                            if let Some(i) = fs.ino(k) {
                                inos.insert(i, k.clone());
                            }
                        }
                    }
                })?;
                ex.close();
                for e in fs.events() {
                    let (i, what) = match &e {
                        Ev::Write { ino, .. } => (*ino, "wrote to"),
                        Ev::Truncate { ino, .. } => (*ino, "truncated"),
                        Ev::Unlink { ino, .. } => (*ino, "removed"),
                        Ev::Open { ino, write: true, .. } => (*ino, "opened for writing"),
                        _ => continue,
                    };
                    if let Some(n) = inos.get(&i) {
                        viol!("{} {what} its input {n}", s.name);
                    }
                }
                let after = fs.snapshot("/");
                for src in &s.sources {
                    let at = format!("/w/{src}");
                    for (k, v) in before.iter().filter(|(k, _)| **k == at || k.starts_with(&format!("{at}/"))) {
                        ensure!(after.get(k) == Some(v), "{} changed its input {k}", s.name);
                    }
                    for k in after.keys().filter(|k| k.starts_with(&format!("{at}/"))) {
                        ensure!(before.contains_key(k), "{} made {k}", s.name);
                    }
                }
                Ok(format!("{} {}", r.is_ok(), ex.notes().join(";")))
            }));
        }
    }
    // a keyed verification and a header dump of handles that could be written
    for what in ["verify", "dump", "hash", "decrypt"] {
        jobs.push(Job::new(format!("{what} with a writable handle"), 0, move |ex| {
            for good in [true, false] {
                let fs = Mfs::new(ex);
                let m = crate::refimpl::make(5, Alg::Aes, Mode::Stream, &[(PW.to_vec(), Kdf::B5)], b"text", 3);
                let mut f = m.file();
                if !good {
                    f[9] ^= 1;
                }
                fs.put_file("in", &f);
                fs.put_file("out", b"");
                let i = open(&fs, "in", true);
                let o = open(&fs, "out", true);
                match what {
                    "verify" => drop(crate::ops::KeyOp::Verify { pw: if good { PW.to_vec() } else { b"x".to_vec() } }.run(&i)?),
                    "dump" => drop(crate::ops::dump(&i, &o)?),
                    "hash" => drop(crate::ops::hash(i)?),
                    _ => drop(crate::ops::decrypt(None, &i, &o, PW)?),
                }
                ensure!(fs.content("in") == Some(f), "{what} changed its input");
            }
            Ok("ok".into())
        }));
    }
    jobs
}
