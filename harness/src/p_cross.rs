//! The guarantees of the library, once more through the real command and the real file system.

use crate::cli::{diff, one, run, Call, Node, World};
use crate::explore::{Ex, Job, Res, Viol};
use crate::p_cli::*;
use crate::p_fs::{raw_zip, real_tree, ze};
use crate::refimpl::{bytes, make, Alg, Kdf, Mode, BLOCK};
use crate::{ensure, p_crypto, p_fs, p_streams, viol};
use std::collections::BTreeMap;

fn also(mut jobs: Vec<Job>, more: Vec<Job>) -> Vec<Job> {
    jobs.extend(more.into_iter().map(|mut j| {
        j.name = format!("the command: {}", j.name);
        j
    }));
    jobs
}

fn which(erasing: bool, thorough: bool, kinds: &[&str]) -> Vec<Use> {
    let mut v = uses(erasing, thorough);
    v.retain(|u| kinds.iter().any(|k| u.name.starts_with(k)));
    if erasing {
        for u in &mut v {
            if !u.name.starts_with("erase") {
                u.name += " and erase";
            }
        }
    }
    v
}

const FILES: &[&str] = &["encrypt", "decrypt", "hash", "erase"];
const DIRS: &[&str] = &["pack", "unpack"];

// ---- C01, C02, C04, C08, C22 ----

pub fn c01(thorough: bool) -> Vec<Job> {
    let mut sizes = vec![0, 1, 15, 16, 17, 415, 416, 417, 4095, 4096, 8191, 8192, 8193, BLOCK - 17, BLOCK - 16, BLOCK - 1, BLOCK, BLOCK + 1, BLOCK + 16, 2 * BLOCK, 2 * BLOCK + 1];
    if thorough {
        sizes.extend(2..15);
        sizes.extend((0..40).map(|i| i * 997 + 18));
        sizes.extend([3 * BLOCK - 1, 3 * BLOCK, 5 * BLOCK + 7]);
    }
    let mut jobs = vec![];
    for header in [false, true] {
        let sizes = sizes.clone();
        jobs.push(Job::new(format!("encrypt and decrypt, header file={header}"), 0, move |ex| {
            let size = *one(ex, "size", &sizes);
            let flags = *one(ex, "options", &["", "--aes", "--argon", "--aes --argon"]);
            // files that are replaced may be longer, shorter or of the same length
            let there = *one(ex, "length of what the outputs replace", &[None, Some(0usize), Some(1), Some(size + 3000)]);
            let mut w = World::new();
            w.file("in", &plain_of(size)).file("key", PW);
            if let Some(n) = there {
                for f in ["mid", "out", "h"] {
                    w.file(f, &vec![0xAA; n]);
                }
            }
            w.start();
            let h: &[&str] = if header { &["--header", "h"] } else { &[] };
            let o = split(&[flags]);
            let mut a = vec!["encrypt", "-f", "in", "mid", "-k", "key"];
            a.extend(o.iter().map(String::as_str));
            a.extend(h);
            let d = w.run(&run(&a));
            d.judge()?;
            ensure!(d.ok(), "encrypting {size} bytes failed: {}", d.short());
            let mut a = vec!["decrypt", "-f", "mid", "out", "-k", "key"];
            a.extend(h);
            let d = w.run(&run(&a));
            d.judge()?;
            ensure!(d.ok(), "decrypting what was encrypted of {size} bytes failed: {}", d.short());
            let got = w.get("out").unwrap_or_default();
            ensure!(got == plain_of(size), "{size} bytes became {} bytes that differ (in place of {there:?} bytes)", got.len());
            let (m, hl) = (w.get("mid").unwrap_or_default().len(), w.get("h").unwrap_or_default().len());
            let (em, eh) = (size + 16 * (size / BLOCK + 1), 416);
            ensure!((m, hl) == if header { (em, eh) } else { (em + eh, there.unwrap_or(0)) }, "encrypting {size} bytes in place of {there:?} bytes made {m} bytes and a header file of {hl}");
            ensure!(w.get("in") == Some(plain_of(size)), "the input changed");
            Ok(format!("{size} {flags}"))
        }));
    }
    also(p_crypto::c01(thorough), jobs)
}

pub fn c02(thorough: bool) -> Vec<Job> {
    let mut jobs = vec![];
    let mut all = uses(false, false);
    all.extend(which(true, false, &["encrypt 60 bytes", "decrypt V5 Stream 60 bytes", "erase a file", "erase a dir"]));
    for u in all {
        if u.name.contains("over existing") {
            continue;
        }
        let big = u.name == "hash" || thorough;
        jobs.push(Job::new(format!("split transfers: {}", u.name), 0, move |ex| {
            let every: &[u64] = if big { &[0, 100, 4095, 8192, 65536, 1 << 20] } else { &[0, 1, 2, 7, 16, 100, 415, 511, 4096] };
            let p = (*one(ex, "at most", every), *one(ex, "interrupted every", &[0u64, 2, 3, 5]));
            let w = u.world();
            let mut r = u.run.clone();
            r.pieces = Some(p);
            let d = w.run(&r);
            d.judge()?;
            if d.ok() {
                (u.complete)(&w, &d).map_err(|v| Viol { msg: format!("transfers of at most {} bytes, every {} interrupted: {}", p.0, p.1, v.msg), ..v })?;
            }
            (u.safe)(&w, &d)?;
            ensure!(d.ok() || p.1 != 0, "transfers of at most {} bytes make it fail: {}", p.0, d.short());
            Ok(format!("{p:?} {}", d.ok()))
        }));
    }
    also(p_streams::c02(thorough), jobs)
}

pub fn c04(thorough: bool) -> Vec<Job> {
    let mut jobs = vec![];
    for cmd in ["decrypt", "unpack"] {
        jobs.push(Job::new(format!("{cmd}: a key that differs a little"), 0, move |ex| c34_exact(ex, cmd)));
    }
    for cmd in CMDS {
        jobs.push(Job::new(format!("{cmd}: the key that was given"), 0, move |ex| c34_content(ex, cmd, false)));
    }
    also(p_crypto::c04(thorough), jobs)
}

pub fn c08(thorough: bool) -> Vec<Job> {
    let mut jobs = p_crypto::c08(thorough);
    jobs.extend(p_fs::bad_archives(thorough));
    also(jobs, bad_inputs(false))
}

pub fn c22(thorough: bool) -> Vec<Job> {
    let mut sizes = vec![0, 1, 2, 31, 63, 64, 65, 1023, 1024, 1025, 4095, 4096, 4097, 8191, 8192, 8193, 65535, 65536, BLOCK - 1, BLOCK, BLOCK + 1, 2 * BLOCK, 2 * BLOCK + 1];
    if thorough {
        sizes.extend((0..200).map(|i| i * 331 + 3));
    }
    let s2 = sizes.clone();
    let mut jobs = vec![Job::new("hash of every size", 0, move |ex| {
        let size = *one(ex, "size", &sizes);
        let mut w = World::new();
        w.file("f", &bytes(5, size));
        w.start();
        let mut r = run(&["hash", "f"]);
        r.pieces = Some(*one(ex, "pieces", &[(0, 0), (1000, 0), (4096, 2), (99_991, 3)]));
        let d = w.run(&r);
        d.judge()?;
        ensure!(d.ok(), "hashing failed: {}", d.short());
        said_hashes(&d, &[hash_of(&bytes(5, size))])?;
        ensure!(w.tree() == w.before, "hashing changed something");
        Ok(format!("{size}"))
    })];
    jobs.push(Job::new("hash of several files", 0, move |ex| {
        let few = [s2[0], s2[1], s2[6], s2[13], BLOCK + 1];
        let n = 2 + ex.pick("files", 2) as usize;
        let sizes: Vec<usize> = (0..n).map(|_| *one(ex, "size", &few)).collect();
        let mut w = World::new();
        let names: Vec<String> = (0..n).map(|i| format!("f{i}")).collect();
        for (i, s) in sizes.iter().enumerate() {
            w.file(&names[i], &bytes(i as u64, *s));
        }
        w.start();
        let mut a = vec!["hash"];
        a.extend(names.iter().map(String::as_str));
        let d = w.run(&run(&a));
        d.judge()?;
        ensure!(d.ok(), "hashing failed: {}", d.short());
        said_hashes(&d, &sizes.iter().enumerate().map(|(i, s)| hash_of(&bytes(i as u64, *s))).collect::<Vec<_>>())?;
        Ok(format!("{sizes:?}"))
    }));
    also(p_crypto::c22(thorough), jobs)
}

// ---- C13, C14 ----

pub fn c13(thorough: bool) -> Vec<Job> {
    let all = which(false, false, FILES).into_iter().chain(which(true, false, FILES));
    also(p_streams::c13(thorough), all.map(|u| disturbed(u, thorough, true_success)).collect())
}

pub fn c14(thorough: bool) -> Vec<Job> {
    let all = which(false, false, DIRS).into_iter().chain(which(true, false, DIRS));
    also(p_streams::c14(thorough), all.map(|u| disturbed(u, thorough, true_success)).collect())
}

// ---- C15 ----

type T = BTreeMap<Vec<u8>, Option<Vec<u8>>>;

/// Every tree of at most n entries below one directory
fn forests(n: usize, names: &[&str]) -> Vec<Vec<(String, Option<Vec<u8>>)>> {
    let mut out = vec![vec![]];
    let mut level: Vec<Vec<(String, Option<Vec<u8>>)>> = vec![vec![]];
    for i in 0..n {
        let mut next = vec![];
        for f in &level {
            let dirs: Vec<String> = std::iter::once(String::new()).chain(f.iter().filter(|e| e.1.is_none()).map(|e| format!("{}/", e.0))).collect();
            for d in dirs {
                for name in names {
                    let p = format!("{d}{name}");
                    // in order, so that every tree comes once
                    if f.last().is_some_and(|l| l.0 >= p) {
                        continue;
                    }
                    for c in [None, Some(vec![]), Some(bytes(i as u64, 300 + i))] {
                        let mut g = f.clone();
                        g.push((p.clone(), c));
                        next.push(g);
                    }
                }
            }
        }
        out.extend(next.clone());
        level = next;
    }
    out
}

/// Packs and unpacks; what comes out below some directory is what went in.
fn there_and_back(w: &mut World, ex: &Ex, cwd: Option<&str>, from: &[&str], real: &[&str], to: &str, real_to: &str) -> Res<()> {
    let mid = if cwd.is_some() { w.path("mid").to_string_lossy().into_owned() } else { "mid".to_string() };
    let key = w.path("key").to_string_lossy().into_owned();
    w.file("key", PW);
    let zstd = ex.pick("zstd", 2) == 1;
    let mut a = vec!["pack"];
    a.extend(from);
    a.extend([&mid[..], "-k", &key]);
    if zstd {
        a.push("-z");
    }
    w.start();
    let mut r = run(&a);
    r.cwd = cwd.map(String::from);
    let d = w.run(&r);
    d.judge()?;
    ensure!(d.ok(), "packing {from:?} failed: {}", d.short());
    for (k, (x, y)) in diff(&w.before, &w.tree()) {
        ensure!(k == "w/mid", "{k} changed from {x:?} to {y:?}");
    }
    let mut r = run(&["unpack", &mid, to, "-k", &key]);
    r.cwd = cwd.map(String::from);
    let d = w.run(&r);
    d.judge()?;
    ensure!(d.ok(), "unpacking what was packed of {from:?} failed: {}", d.short());
    let got = real_tree(&w.path(real_to));
    let mut rest: std::collections::BTreeSet<Vec<u8>> = got.keys().cloned().collect();
    for real in real {
        let want = real_tree(&w.path(real));
        let at = got.keys().filter(|k| got[*k].is_none()).find(|at| {
            let inside: T = got.iter().filter_map(|(k, v)| k.strip_prefix(&[&at[..], b"/"].concat()[..]).map(|k| (k.to_vec(), v.clone()))).collect();
            // the last part of the name stays
            inside == want && at.ends_with(real.rsplit('/').next().unwrap().as_bytes())
        });
        let Some(at) = at else { viol!("{real} became {:?}", got.keys().map(|k| String::from_utf8_lossy(k).into_owned()).collect::<Vec<_>>()) };
        rest.retain(|k| !(k == at || k.starts_with(&[&at[..], b"/"].concat()) || at.starts_with(&[&k[..], b"/"].concat())));
    }
    ensure!(rest.is_empty(), "{from:?}: these entries come from nowhere: {:?}", rest.iter().map(|k| String::from_utf8_lossy(k).into_owned()).collect::<Vec<_>>());
    for (k, (x, y)) in diff(&w.before, &w.tree()) {
        ensure!(k == "w/mid" || k.starts_with(&format!("w/{real_to}")) || format!("w/{real_to}").starts_with(&format!("{k}/")), "{k} changed from {x:?} to {y:?}");
    }
    Ok(())
}

pub fn c15(thorough: bool) -> Vec<Job> {
    let mut jobs = vec![];
    let all = forests(if thorough { 4 } else { 3 }, &["a", ".b"]);
    let n = all.len().div_ceil(8);
    for (i, chunk) in all.chunks(n).enumerate() {
        let chunk = chunk.to_vec();
        jobs.push(Job::new(format!("small trees, part {i}"), 0, move |ex| {
            let t = one(ex, "tree", &chunk);
            let mut w = World::new();
            w.mkdir("d").file("other", b"other");
            for (p, c) in t {
                match c {
                    Some(c) => w.file(&format!("d/{p}"), c),
                    None => w.mkdir(&format!("d/{p}")),
                };
            }
            there_and_back(&mut w, ex, None, &["d"], &["d"], "to", "to")?;
            Ok(format!("{} entries", t.len()))
        }));
    }
    jobs.push(Job::new("names", 0, |ex| {
        let long = "n".repeat(255);
        let name = *one(ex, "name", &["a b", " a", "a ", "-x", "--", "\\", "a\\b", "...", "..a", ".", "\u{e4}\u{1F600}", "a\nb", "*", "~", "$x", "\"", "'", "\u{7f}", "con", "a:b", "%2f", &long, "\u{301}", "A"]);
        let mut w = World::new();
        w.mkdir("d").file("other", b"other");
        if name == "." {
            w.file("d/.hidden", b"x").mkdir("d/.dir/.sub");
        } else {
            w.file(&format!("d/{name}"), b"file").mkdir("d/y").file(&format!("d/y/{name}/{name}"), b"inner").mkdir(&format!("d/z/{name}"));
        }
        there_and_back(&mut w, ex, None, &["d"], &["d"], "to", "to")?;
        Ok(name.into())
    }));
    jobs.push(Job::new("spellings", 0, |ex| {
        // where it runs, the name, what that is
        let (cwd, from, real) = *one(
            ex,
            "directory",
            &[
                ("", "d", "d"),
                ("", "d/", "d"),
                ("", "./d", "d"),
                ("", "d/.", "d"),
                ("", "../w/d", "d"),
                ("", "s/../d", "d"),
                ("", "s/d", "s/d"),
                ("", "./s//d/", "s/d"),
                ("", "ABS/d", "d"),
                ("", "ABS/s/d/", "s/d"),
                ("s", "../d", "d"),
                ("s", "d", "s/d"),
                ("s", "../s/d", "s/d"),
                ("s/d", "../../d", "d"),
                ("s/d", ".", "s/d"),
                ("s", ".././d/../d", "d"),
            ],
        );
        let to = *one(ex, "target", &["to", "./to/", "new/deep/target", "../w/to", "ABS/to"]);
        let mut w = World::new();
        w.mkdir("s");
        put_d(&w, "d");
        put_d(&w, "s/d");
        w.file("s/d/more", b"only here");
        let abs = |n: &str| n.replace("ABS", &w.path("").to_string_lossy());
        let (from, target) = (abs(from), abs(to));
        // the target doesn't belong into what is packed
        let at = if to.starts_with("ABS") || cwd.is_empty() { String::new() } else { format!("{cwd}/") };
        let real_to = match to {
            "ABS/to" => "to".into(),
            "../w/to" if cwd.is_empty() => "to".into(),
            "../w/to" => return Ok("elsewhere".into()),
            t => format!("{at}{}", t.trim_start_matches("./").trim_end_matches('/')),
        };
        if real_to.starts_with(&format!("{real}/")) || from == "." {
            return Ok("inside".into());
        }
        there_and_back(&mut w, ex, (!cwd.is_empty()).then_some(cwd), &[&from], &[real], &target, &real_to)?;
        Ok(format!("{from} {to}"))
    }));
    // shapes: deep and wide, every one up to a size
    jobs.push(Job::new("deep trees", 0, move |ex| {
        let mut depths: Vec<usize> = (1..=if thorough { 150 } else { 40 }).collect();
        depths.extend([64, 65, 100, 128, 129, 256]);
        let n = *one(ex, "depth", &depths);
        let mut w = World::new();
        let mut at = "d".to_string();
        for i in 0..n {
            at += ["/s", "/.s", "/sub"][i % 3];
            if i % 2 == 0 {
                w.file(&format!("{at}/f"), format!("{i}").as_bytes());
            }
        }
        w.mkdir(&at);
        there_and_back(&mut w, ex, None, &["d"], &["d"], "to", "to")?;
        Ok(format!("{n} levels"))
    }));
    jobs.push(Job::new("wide trees", 0, move |ex| {
        let n = *one(ex, "entries", &[2usize, 16, 31, 32, 33, 63, 64, 65, 100, 127, 128, 129, 255, 256, 257, 300, 512, 700]);
        let mut w = World::new();
        w.mkdir("d");
        for i in 0..n {
            match i % 5 {
                4 => w.mkdir(&format!("d/sub{i}")),
                3 => w.file(&format!("d/sub{}/{i}", i - i % 10), b"inner"),
                _ => w.file(&format!("d/{i}"), format!("{i}").as_bytes()),
            };
        }
        there_and_back(&mut w, ex, None, &["d"], &["d"], "to", "to")?;
        Ok(format!("{n} entries"))
    }));
    jobs.push(Job::new("more files than may be open", 0, move |ex| {
        let limit = *one(ex, "limit", &[24u64, 40, 64]);
        let n = *one(ex, "files", &[0, limit / 2, limit - 1, limit, 2 * limit]);
        let mut w = World::new();
        w.file("key", PW).mkdir("d");
        for i in 0..n {
            w.file(&format!("d/{i}"), format!("{i}").as_bytes());
        }
        w.start();
        let mut r = run(&["pack", "-r", "-k", "key", "d", "out"]);
        r.nofile = Some(limit);
        let d = w.run(&r);
        d.judge()?;
        if !d.ok() {
            ensure!(n + 20 > limit, "packing {n} files failed although {limit} may be open: {}", d.short());
            return Err(Viol { msg: format!("packing {n} files fails when {limit} may be open"), sig: "pack-opens-all-files-at-once".into() });
        }
        let mut r = run(&["unpack", "-k", "key", "out", "to"]);
        r.nofile = Some(limit);
        let d = w.run(&r);
        d.judge()?;
        ensure!(d.ok(), "unpacking {n} files failed although {limit} may be open: {}", d.short());
        for i in 0..n {
            ensure!(w.get(&format!("to/d/{i}")) == Some(format!("{i}").into_bytes()), "file {i} of {n} isn't there after unpacking");
        }
        Ok(format!("{n} of {limit}"))
    }));
    jobs.push(Job::new("several directories", 0, |ex| {
        let names = ["d", "d.x", "s/e", "s/t", "./d/../f/"];
        let real = ["d", "d.x", "s/e", "s/t", "f"];
        let n = 2 + ex.pick("how many", 2) as usize;
        let mut left: Vec<usize> = (0..names.len()).collect();
        let mut is = vec![];
        for _ in 0..n {
            let i = ex.pick("which", left.len() as u32) as usize;
            is.push(left.remove(i));
        }
        let mut w = World::new();
        for r in real {
            put_d(&w, r);
            w.file(&format!("{r}/name"), r.as_bytes());
        }
        let (from, real): (Vec<&str>, Vec<&str>) = is.iter().map(|i| (names[*i], real[*i])).unzip();
        there_and_back(&mut w, ex, None, &from, &real, "to", "to")?;
        Ok(format!("{from:?}"))
    }));
    jobs.push(Job::new("sizes", 0, move |ex| {
        let mut sizes = vec![0, 1, 4096, 8192, BLOCK - 30, BLOCK - 1, BLOCK, BLOCK + 1, 2 * BLOCK];
        if thorough {
            sizes.extend([BLOCK / 2, 3 * BLOCK + 5, 10 * BLOCK]);
        }
        let s = *one(ex, "size", &sizes);
        let s2 = *one(ex, "other size", &sizes[..3]);
        let mut w = World::new();
        w.file("d/one", &bytes(1, s)).file("d/two", &bytes(2, s2)).file("d/three/four", &vec![0; s]);
        there_and_back(&mut w, ex, None, &["d"], &["d"], "to", "to")?;
        Ok(format!("{s} {s2}"))
    }));
    also(p_fs::c15(thorough), jobs)
}

// ---- C16 ----

pub fn c16(thorough: bool) -> Vec<Job> {
    // (two levels up are still in the scratch directory, whatever happens)
    let mut names: Vec<String> = vec![];
    let parts = ["a", "e", "..", ".", "", "..\\b", "..."];
    let mut level: Vec<Vec<&str>> = vec![vec![]];
    for _ in 0..if thorough { 4 } else { 3 } {
        level = level.iter().flat_map(|v| parts.iter().map(move |c| [&v[..], &[*c][..]].concat())).collect();
        for v in &level {
            let j = v.join("/");
            for n in [j.clone(), format!("ROOT/{j}"), format!("{j}/")] {
                let up = n.split('/').filter(|c| *c == "..").count();
                if up <= 2 && !j.is_empty() && !j.starts_with('/') && !n.starts_with('/') {
                    names.push(n);
                }
            }
        }
    }
    names.sort();
    names.dedup();
    let mut jobs = vec![];
    for (i, chunk) in names.chunks(names.len().div_ceil(8)).enumerate() {
        let chunk = chunk.to_vec();
        jobs.push(Job::new(format!("entry names, part {i}"), 0, move |ex| {
            let name = one(ex, "name", &chunk);
            let mut w = World::new();
            let abs = name.replace("ROOT", &w.path("e").to_string_lossy());
            let zip = raw_zip(&[ze(b"dir/", b""), ze(b"dir/file", b"honest"), ze(abs.as_bytes(), b"evil"), ze(b"top", b"honest too")]);
            w.file("in", &make(5, Alg::XChaCha, Mode::Stream, &[(PW.to_vec(), Kdf::B5)], &zip, 2).file()).file("key", PW);
            for f in ["a", "e/a", "to/deep/before", "to/a.x", "x/to"] {
                w.file(f, b"precious");
            }
            w.start();
            let d = w.run(&run(&["unpack", "in", "to/deep", "-f", "-k", "key"]));
            d.judge()?;
            for (k, (a, b)) in diff(&w.before, &w.tree()) {
                ensure!(k.starts_with("w/to/deep/"), "an entry named {abs:?} changed {k} from {a:?} to {b:?}");
            }
            // (a file in a directory that the archive doesn't hold is refused)
            let plain = !name.contains("ROOT") && !["", ".", ".."].contains(&name.trim_end_matches('/')) && !name.trim_end_matches('/').contains('/');
            if plain || d.ok() {
                ensure!(d.ok(), "unpacking an entry named {abs:?} failed: {}", d.short());
                ensure!(w.get("to/deep/dir/file").as_deref() == Some(b"honest") && w.get("to/deep/top").as_deref() == Some(b"honest too"), "beside {abs:?}, honest entries weren't extracted");
            }
            if plain && !name.ends_with('/') {
                ensure!(w.get(&format!("to/deep/{name}")).as_deref() == Some(b"evil"), "the entry {name:?} wasn't extracted");
            }
            Ok(format!("{}", d.ok()))
        }));
    }
    jobs.push(Job::new("links and kinds", 0, |ex| {
        let modes = [0o120_777, 0o100_644, 0o40_755, 0o10_644, 0o20_644, 0o104_777, 0];
        let mode = *one(ex, "mode", &modes);
        let goal = *one(ex, "content", &["../../e", "ROOT", "e", ".", "../.."]);
        let then = *one(ex, "then", &["l/a", "l", "l/../a", "l/", "l/sub/a"]);
        let mut w = World::new();
        let goal = goal.replace("ROOT", &w.path("e").to_string_lossy());
        let mut e = ze(b"l", goal.as_bytes());
        e.mode = Some(mode);
        let zip = raw_zip(&[e, ze(then.as_bytes(), if then.ends_with('/') { b"" } else { b"evil" })]);
        w.file("in", &make(5, Alg::XChaCha, Mode::Stream, &[(PW.to_vec(), Kdf::B5)], &zip, 2).file()).file("key", PW);
        for f in ["a", "e/a", "to/deep/before"] {
            w.file(f, b"precious");
        }
        w.start();
        let d = w.run(&run(&["unpack", "in", "to/deep", "-f", "-k", "key"]));
        d.judge()?;
        for (k, (a, b)) in diff(&w.before, &w.tree()) {
            ensure!(k.starts_with("w/to/deep/"), "mode {mode:o} to {goal:?}, then {then:?}: {k} changed from {a:?} to {b:?}");
            if let Some(Node::Link(t)) = &b {
                ensure!(!t.starts_with('/') && !t.contains(".."), "a link to {t} was made");
            }
        }
        Ok(format!("{mode:o} {then} {}", d.ok()))
    }));
    also(p_fs::c16(thorough), jobs)
}

// ---- C17 ----

fn tmp(c: &Call) -> bool {
    c.path.starts_with("tmp/")
}

fn staged(x: &Disturbed) -> Res<()> {
    x.d.judge()?;
    let failed = |kinds: &[&str]| x.d.log.iter().any(|c| tmp(c) && c.ret < 0 && c.errno != 4 && kinds.contains(&c.kind.as_str()));
    let left: Vec<_> = std::fs::read_dir(x.w.root.join("tmp")).unwrap().map(|e| e.unwrap().file_name()).collect();
    if failed(&["unlink", "truncate"]) || x.d.log.iter().any(|c| tmp(c) && c.ret < 0 && c.flags & libc::O_TRUNC != 0) {
        ensure!(!x.d.ok(), "the temporary archive couldn't be removed, but success was reported");
    } else {
        ensure!(left.is_empty(), "the temporary archive is still there: {left:?}: {}", x.d.short());
    }
    // overwriting fails, or it can't be done
    let last_read = x.base.iter().rposition(|c| tmp(c) && c.kind == "read").map_or(0, |i| x.base[i].n);
    let late = x.c.n > last_read && x.act != "short" && x.act != "err:4" && x.d.log.iter().any(|c| tmp(c) && c.ret < 0);
    let exempt = late || x.act == "full";
    let mut dirty: BTreeMap<&str, Vec<bool>> = BTreeMap::new();
    for c in x.d.log.iter().filter(|c| tmp(c) && c.ret >= 0) {
        let v = dirty.entry(&c.path).or_default();
        match c.kind.as_str() {
            "write" => {
                let (a, b) = (c.off as usize, (c.off + c.ret) as usize);
                if v.len() < b {
                    v.resize(b, false);
                }
                v[a..b].fill(!c.zero);
            }
            "truncate" | "unlink" | "open" => {
                if c.kind != "open" || c.flags & libc::O_TRUNC != 0 {
                    let n = v.iter().filter(|b| **b).count();
                    if exempt {
                        ensure!(n == 0 || !x.d.ok(), "{n} bytes of the temporary archive weren't overwritten, but success was reported");
                    } else {
                        ensure!(n == 0, "{n} bytes of the temporary archive weren't overwritten before its removal: {}", x.d.short());
                    }
                    v.clear();
                }
            }
            "rename" | "link" | "copy" => viol!("the temporary archive was {}ed to {}", c.kind, c.path2),
            _ => {}
        }
    }
    if x.d.ok() {
        ensure!(dirty.len() == 1, "{} temporary files", dirty.len());
    }
    for (k, (a, b)) in diff(&x.w.before, &x.w.tree()) {
        let out = if x.u.name.starts_with("unpack") { k.starts_with("w/to") } else { k == "w/out" || k == "w/h" };
        ensure!(out || k.starts_with("tmp/") || a.is_some(), "{k} changed from {a:?} to {b:?}");
    }
    Ok(())
}

pub fn c17(thorough: bool) -> Vec<Job> {
    let mut jobs: Vec<Job> = which(false, false, DIRS).into_iter().chain(which(true, false, DIRS)).map(|u| disturbed(u, thorough, staged)).collect();
    // what is no archive, or can't be decrypted
    for what in ["wrong key", "no archive", "cut archive", "cut payload", "damaged payload", "declined", "conflict", "empty"] {
        let zip = crate::scen::archive(&entries(), false);
        let zip = match what {
            "no archive" => bytes(3, 900),
            "cut archive" => zip[..zip.len() - 30].to_vec(),
            "empty" => vec![],
            "conflict" => raw_zip(&[ze(b"a", b"one"), ze(b"a/b", b"two"), ze(b"c", b"three")]),
            _ => zip,
        };
        let m = make(5, Alg::XChaCha, Mode::Stream, &[(PW.to_vec(), Kdf::B5)], &zip, 21);
        let mut f = m.file();
        match what {
            "cut payload" => f.truncate(f.len() - 1),
            "damaged payload" => *f.last_mut().unwrap() ^= 1,
            _ => {}
        }
        let key = if what == "wrong key" { b"another key".to_vec() } else { PW.to_vec() };
        let mut r = run(&["unpack", "in", "to", "-k", "key"]);
        if what == "declined" {
            r.stdin = Some(b"n\n".to_vec());
        }
        let u = Use {
            name: format!("unpack, {what}"),
            run: r,
            setup: std::sync::Arc::new(move |w| {
                w.file("in", &f).file("key", &key).file("to/t/a", b"before");
            }),
            complete: std::sync::Arc::new(|_, _| Ok(())),
            safe: std::sync::Arc::new(|_, _| Ok(())),
        };
        jobs.push(refused_faults(u, thorough));
    }
    also(p_fs::c17(thorough), jobs)
}

/// Like `disturbed`, of a run that fails by itself
fn refused_faults(u: Use, thorough: bool) -> Job {
    Job::new(u.name.clone(), 0, move |ex| {
        let w = u.world();
        let d = w.run(&u.run.clone().log());
        d.judge()?;
        let base: Vec<Call> = d.log.into_iter().filter(|c| c.n > 0).collect();
        let c = one(ex, "call", &base).clone();
        let acts: &[&str] = if thorough { &["none", "err:5", "err:13", "err:28", "short", "err:4"] } else { &["none", "err:5", "err:28"] };
        let act = one(ex, "what", acts).to_string();
        if act == "none" && c.n > 1 {
            return Ok("again".into());
        }
        let w = u.world();
        let r = u.run.clone().log();
        let d = w.run(&if act == "none" { r } else { r.fault(c.n, &act) });
        let told = format!("{act} at {}", describe(&c));
        let none = act == "none";
        let x = Disturbed { u: &u, w, d, c: if none { Call::default() } else { c }, act, base };
        // (how often something is staged is open: nothing may be)
        staged_if(&x).map_err(|v| Viol { msg: format!("{told}: {}", v.msg), ..v })?;
        Ok(format!("{} {:?}", x.act, x.d.code))
    })
}

fn staged_if(x: &Disturbed) -> Res<()> {
    if x.d.log.iter().any(tmp) {
        staged(x)
    } else {
        x.d.judge()
    }
}

// ---- C18 ----

pub fn c18(thorough: bool) -> Vec<Job> {
    let mut jobs = vec![];
    let mut sizes = vec![0, 1, 7, 31, 511, 512, 513, 4095, 4096, 4097, 8192, 10_000, BLOCK - 1, BLOCK, BLOCK + 1];
    if thorough {
        sizes.extend((0..60).map(|i| 2 + i * 173));
        sizes.extend([2 * BLOCK + 3, 5 * BLOCK]);
    }
    for what in ["erase", "encrypt", "hash of nothing"] {
        if what == "hash of nothing" {
            continue;
        }
        let sizes = sizes.clone();
        jobs.push(Job::new(format!("{what}: every size"), 0, move |ex| {
            let size = *one(ex, "size", &sizes);
            let passes = *one(ex, "passes", &[0usize, 1, 2, 3]);
            let pieces = *one(ex, "pieces", &[(0u64, 0u64), (500, 0), (5000, 0)]);
            if pieces.0 > 0 && (size > 20_000 || size as u64 <= pieces.0) {
                return Ok("the same".into());
            }
            let mut w = World::new();
            w.file("f", &bytes(3, size)).file("key", PW).file("g", b"bystander");
            w.start();
            let (p, e) = (format!("--passes={passes}"), format!("--erase={passes}"));
            let mut r = if what == "erase" { run(&["erase", "f", "-f", &p]) } else { run(&["encrypt", "f", "out", "-k", "key", &e]) };
            r.pieces = Some(pieces);
            let d = w.run(&r.log());
            d.judge()?;
            ensure!(d.ok(), "{what} failed: {}", d.short());
            erased(&d.log, "w/f", size, passes)?;
            effects(&w, if what == "erase" { &[] } else { &["out"] }, &["f"], &d)?;
            Ok(format!("{size} {passes}"))
        }));
    }
    // a failure while it is overwritten keeps the file
    for (size, passes) in [(600usize, 1usize), (600, 0), (1500, 2), (0, 1)] {
        let flag = format!("--passes={passes}");
        let u = Use {
            name: format!("erase {size} bytes, {passes} passes, failing"),
            run: run(&["erase", "f", "-f", &flag]),
            setup: std::sync::Arc::new(move |w| {
                w.file("f", &bytes(3, size));
            }),
            complete: std::sync::Arc::new(|w, _| {
                ensure!(!w.path("f").exists(), "f is still there");
                Ok(())
            }),
            safe: std::sync::Arc::new(|_, _| Ok(())),
        };
        jobs.push(disturbed(u, thorough, move |x| {
            true_success(x)?;
            if x.d.ok() {
                erased(&x.d.log, "w/f", size, passes)?;
            }
            let hit = x.d.log.iter().find(|c| c.ret < 0 && c.errno != 4 && c.path == "w/f" && matches!(c.kind.as_str(), "write" | "seek"));
            if hit.is_some() {
                ensure!(x.w.path("f").exists(), "overwriting failed, and f was removed all the same");
                ensure!(!x.d.ok(), "overwriting failed, but success was reported");
            }
            Ok(())
        }));
    }
    jobs.push(Job::new("erase a directory", 0, |ex| {
        let passes = *one(ex, "passes", &[0usize, 1, 2]);
        let sizes: Vec<usize> = (0..3).map(|_| *one(ex, "size", &[0usize, 513, 9000])).collect();
        let mut w = World::new();
        w.file("d/a", &bytes(1, sizes[0])).file("d/s/.b", &bytes(2, sizes[1])).file("d/s/t/c", &bytes(3, sizes[2])).file("g", b"bystander");
        w.start();
        let d = w.run(&run(&["erase", "d", "-f", &format!("--passes={passes}")]).log());
        d.judge()?;
        ensure!(d.ok(), "erasing failed: {}", d.short());
        for (n, s) in ["d/a", "d/s/.b", "d/s/t/c"].iter().zip(&sizes) {
            erased(&d.log, &format!("w/{n}"), *s, passes)?;
        }
        ensure!(!w.path("d").exists() && w.get("g").as_deref() == Some(b"bystander"), "not (only) the directory was erased");
        Ok(format!("{passes} {sizes:?}"))
    }));
    also(p_fs::c18(thorough), jobs)
}

// ---- C21 ----

fn inputs(u: &Use) -> Vec<&'static str> {
    let mut v = vec!["w/key"];
    let header = u.name.contains("header file");
    if u.name.starts_with("pack") {
        v.extend(["w/d", "w/e"]);
    } else if u.name.starts_with("hash") {
        v.extend(["w/f", "w/g"]);
    } else {
        v.push("w/in");
    }
    if header && !u.name.starts_with("encrypt") && !u.name.starts_with("pack") {
        v.push("w/h");
    }
    v
}

fn below(path: &str, at: &str) -> bool {
    path == at || path.strip_prefix(at).is_some_and(|r| r.starts_with('/'))
}

fn touches(c: &Call) -> bool {
    match c.kind.as_str() {
        "open" => c.flags & (libc::O_WRONLY | libc::O_RDWR | libc::O_TRUNC | libc::O_CREAT) != 0,
        _ => c.modifies(),
    }
}

pub fn c21(thorough: bool) -> Vec<Job> {
    let mut jobs = vec![];
    for u in uses(false, false) {
        jobs.push(disturbed(u, thorough, |x| {
            x.d.judge()?;
            let inputs = inputs(x.u);
            for c in x.d.log.iter().filter(|c| touches(c)) {
                ensure!(!inputs.iter().any(|i| below(&c.path, i) || below(&c.path2, i)), "{} was touched: {}", c.path, describe(c));
            }
            for (k, (a, b)) in diff(&x.w.before, &x.w.tree()) {
                ensure!(!inputs.iter().any(|i| below(&k, i)), "{k} changed from {a:?} to {b:?}");
            }
            Ok(())
        }));
    }
    for u in which(true, false, &["encrypt", "decrypt", "pack", "unpack"]) {
        jobs.push(disturbed(u, thorough, |x| {
            x.d.judge()?;
            let inputs = inputs(x.u);
            let erasable = |c: &Call| below(&c.path, "w/in") || (x.u.name.starts_with("pack") && (below(&c.path, "w/d") || below(&c.path, "w/e")));
            let of_input = |c: &&Call| inputs.iter().any(|i| below(&c.path, i) || below(&c.path2, i));
            if let Some(c) = x.d.log.iter().filter(|c| touches(c)).filter(of_input).find(|c| !erasable(c)) {
                viol!("{} was touched: {}", c.path, describe(c));
            }
            // erasing begins when the output is there
            let first = x.d.log.iter().position(|c| touches(c) && erasable(c));
            if let Some(i) = first {
                for c in &x.d.log[i..] {
                    ensure!(!touches(c) || !(below(&c.path, "w/out") || below(&c.path, "w/h") || below(&c.path, "w/to")), "the input was being erased before {} was complete: {}", c.path, describe(c));
                }
                // (what a failure after that does to the input is another matter)
                (x.u.safe)(&x.w, &x.d)?;
            }
            Ok(())
        }));
    }
    also(p_fs::c21(thorough), jobs)
}
