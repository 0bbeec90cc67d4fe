//! C30-C34: the command, as it is run by its user.

use crate::cli::{diff, one, run, Call, Done, Node, Run, Tree, World};
use crate::explore::{count, Ex, Job, Res, Viol};
use crate::refimpl::{bytes, header_len, make, Alg, Hdr, Kdf, Made, Mode, ALGS, BLOCK};
use crate::{ensure, scen, viol};
use std::collections::{BTreeMap, BTreeSet};
use std::os::unix::ffi::OsStrExt;
use std::sync::{Arc, OnceLock};

pub const PW: &[u8] = b"correct horse";
pub const PWS: &str = "correct horse";

pub fn hash_of(d: &[u8]) -> String {
    blake3::hash(d).to_hex().to_string()
}

/// The 64-digit numbers that were printed
pub fn hashes(out: &str) -> Vec<String> {
    out.split(|c: char| !c.is_ascii_alphanumeric()).filter(|w| w.len() == 64 && w.chars().all(|c| c.is_ascii_hexdigit())).map(str::to_lowercase).collect()
}

/// Words joined by hyphens
pub fn passphrases(out: &str) -> Vec<String> {
    out.lines().filter(|l| l.to_lowercase().contains("passphrase")).flat_map(|l| l.split_whitespace().last().map(String::from)).collect()
}

pub fn open(header: Option<&[u8]>, file: &[u8], pw: &[u8]) -> Result<(Hdr, Vec<u8>), String> {
    let (h, p) = match header {
        Some(h) => (h, file),
        None if file.len() < header_len(5) => return Err("it is shorter than a header".into()),
        None => file.split_at(header_len(5)),
    };
    let h = Hdr::parse(h).ok_or("its header is invalid")?;
    let m = h.master(pw).ok_or("the password doesn't open it")?;
    let d = h.open_payload(&m, &h.aad(), p).ok_or("its payload is damaged")?;
    Ok((h, d))
}

pub fn packed(header: Option<&[u8]>, file: &[u8], pw: &[u8]) -> Res<Vec<(String, Option<Vec<u8>>)>> {
    let mut v = scen::open_packed(header, file, pw)?;
    v.sort();
    Ok(v)
}

pub fn args(style: usize, cmd: &str, files: &[&str], flags: &[String]) -> Run {
    let short = format!("-{}", &cmd[..1]);
    let mut a: Vec<&str> = vec![];
    let flags: Vec<&str> = flags.iter().map(String::as_str).filter(|f| !f.is_empty()).collect();
    match style {
        0 => {
            a.push(cmd);
            a.extend(files);
            a.extend(flags);
        }
        1 => {
            a.push(&short);
            a.extend(flags);
            a.extend(files);
        }
        _ => {
            a.push(cmd);
            a.extend(&files[..1]);
            a.extend(flags);
            a.extend(&files[1..]);
        }
    }
    run(&a)
}

pub fn split(opts: &[&str]) -> Vec<String> {
    opts.iter().flat_map(|o| o.split(' ')).filter(|o| !o.is_empty()).map(String::from).collect()
}

/// What the log says about a file: opened for writing or changed in any way?
pub fn touched(log: &[Call], path: &str) -> Option<String> {
    log.iter()
        .find(|c| {
            (c.path == path || c.path2 == path)
                && match c.kind.as_str() {
                    "open" => c.flags & (libc::O_WRONLY | libc::O_RDWR | libc::O_TRUNC) != 0,
                    _ => c.modifies(),
                }
        })
        .map(|c| format!("{} {}", c.kind, c.path))
}

/// A file of this size was overwritten this often with random bytes, then with zeros.
pub fn erased(log: &[Call], path: &str, size: usize, passes: usize) -> Res<()> {
    let mut seen = BTreeSet::new();
    let mut gone = false;
    let size = size as i64;
    // the bytes that were written so far, and where those of the running pass lie
    let mut sum = 0;
    let mut parts: Vec<(i64, i64)> = vec![];
    for c in log.iter().filter(|c| c.path == path && c.ret >= 0) {
        match c.kind.as_str() {
            "write" => {
                ensure!(!gone, "{path} was written after it had been discarded");
                let pass = sum / size.max(1);
                ensure!(pass <= passes as i64, "{path} of {size} bytes was overwritten with more than {passes} random passes and one of zeros");
                if pass == passes as i64 {
                    ensure!(c.zero, "{path} of {size} bytes: its pass {} isn't zeros", pass + 1);
                } else {
                    // (a few random bytes may be zeros, or be there twice)
                    ensure!(c.ret < 8 || !c.zero, "{path} was overwritten with zeros before the {passes} random passes were complete");
                    ensure!(c.ret < 8 || seen.insert(c.hash.clone()), "{path} was overwritten with the same bytes twice");
                }
                parts.push((c.off, c.off + c.ret));
                sum += c.ret;
                if sum >= (pass + 1) * size {
                    parts.sort();
                    let mut end = 0;
                    for (a, b) in parts.drain(..) {
                        ensure!(a == end, "{path} of {size} bytes: pass {} skips or repeats bytes at {a} after {end}", pass + 1);
                        end = b;
                    }
                    ensure!(end == size, "{path} of {size} bytes: pass {} ends at {end}", pass + 1);
                }
            }
            "truncate" | "unlink" => gone = true,
            "open" if c.flags & libc::O_TRUNC != 0 => gone = true,
            _ => {}
        }
    }
    ensure!(sum == (passes as i64 + 1) * size, "{path} of {size} bytes was overwritten with {sum} bytes instead of {passes} random passes and one of zeros");
    ensure!(gone, "{path} wasn't removed");
    Ok(())
}

pub fn passes_of(flag: &str) -> Option<usize> {
    match flag {
        "" => None,
        "--erase=x" | "--passes=x" => Some(1),
        f => Some(f.split_once('=').map_or(1, |(_, n)| n.parse().unwrap())),
    }
}

/// The files that were made and that are gone are these.
pub fn effects(w: &World, made: &[&str], gone: &[&str], d: &Done) -> Res<Tree> {
    let after = w.tree();
    for (k, (a, b)) in diff(&w.before, &after) {
        let name = k.strip_prefix("w/").unwrap_or(&k);
        let fine = match (&a, &b) {
            (None, Some(_)) => made.contains(&name),
            (Some(_), None) => gone.contains(&name),
            _ => made.contains(&name),
        };
        ensure!(fine, "{k} changed from {a:?} to {b:?}: {}", d.short());
    }
    for m in made {
        ensure!(after.contains_key(&format!("w/{m}")), "{m} wasn't made: {}", d.short());
    }
    for g in gone {
        ensure!(!after.contains_key(&format!("w/{g}")), "{g} wasn't erased: {}", d.short());
    }
    Ok(after)
}

pub fn said_hashes(d: &Done, want: &[String]) -> Res<()> {
    let mut got = hashes(&d.out);
    got.extend(hashes(&d.err));
    ensure!(got == want, "the hashes printed are {got:?} instead of {want:?}: {}", d.short());
    Ok(())
}

const STYLES: u32 = 3;

pub fn key_of(kind: &str) -> (&'static str, bool) {
    // option, environment
    match kind {
        "keyfile" => ("-k key", false),
        "keyfile long" => ("--keyfile=key", false),
        "env" => ("", true),
        "auto" => ("--auto", false),
        "auto=3" => ("--auto=3", false),
        _ => ("--auto=x", false),
    }
}

/// The passphrase that was printed, if one was asked for
pub fn generated(kind: &str, d: &Done) -> Res<Vec<u8>> {
    let p = passphrases(&d.out);
    if !kind.starts_with("auto") {
        ensure!(p.is_empty(), "a passphrase was generated although nobody asked: {}", d.short());
        return Ok(PW.to_vec());
    }
    ensure!(p.len() == 1, "{} passphrases were shown: {}", p.len(), d.short());
    let words = p[0].split('-').count();
    let want = if kind == "auto=3" { 3 } else { 7 };
    ensure!(words == want && p[0].split('-').all(|w| !w.is_empty()), "a passphrase of {words} words instead of {want}: {}", p[0]);
    Ok(p[0].clone().into_bytes())
}

pub fn with_key(mut r: Run, kind: &str) -> Run {
    if key_of(kind).1 {
        r = r.key(PWS);
    }
    r
}

pub fn c30_encrypt(ex: &Ex, kind: &str, thorough: bool) -> Res {
    let size = *one(ex, "size", if thorough { &[0usize, 50, BLOCK + 3][..] } else { &[0, 50][..] });
    let erase = *one(ex, "erase", &["", "--erase", "--erase=0", "--erase=1", "--erase=2", "--erase=x"]);
    let hash = *one(ex, "hash", &["", "-H", "--hash"]);
    let argon = *one(ex, "argon", &["", "--argon"]);
    let aes = *one(ex, "aes", &["", "--aes"]);
    let header = *one(ex, "header", &["", "--header h", "--header=h"]);
    let force = *one(ex, "force", if thorough { &["", "-f", "--force"][..] } else { &["", "-f"][..] });
    let style = ex.pick("style", STYLES) as usize;
    let mut w = World::new();
    let plain = bytes(1, size);
    w.file("in", &plain).file("key", PW).file("other", b"bystander").mkdir("h2");
    w.start();
    let r = args(style, "encrypt", &["in", "out"], &split(&[erase, hash, argon, aes, header, force, key_of(kind).0]));
    let d = w.run(&with_key(r, kind).log());
    d.judge()?;
    ensure!(d.ok(), "encrypting failed: {}", d.short());
    let mut made = vec!["out"];
    if !header.is_empty() {
        made.push("h");
    }
    let passes = passes_of(erase);
    effects(&w, &made, if passes.is_some() { &["in"] } else { &[] }, &d)?;
    let pw = generated(kind, &d)?;
    let out = w.get("out").unwrap();
    let h = w.get("h");
    let (hdr, got) = match open(h.as_deref(), &out, &pw) {
        Ok(x) => x,
        Err(e) => viol!("the output can't be opened: {e}: {}", d.short()),
    };
    ensure!(got == plain, "the output has {} bytes other than the input", got.len());
    ensure!(hdr.version == 5 && hdr.mode == Mode::Stream, "the output is of version {} {:?}", hdr.version, hdr.mode);
    let want = if aes.is_empty() { Alg::XChaCha } else { Alg::Aes };
    ensure!(hdr.alg == want, "encrypted by {:?} instead of {want:?}", hdr.alg);
    ensure!(hdr.slots.len() == 1, "{} keys", hdr.slots.len());
    let is_argon = matches!(hdr.slots[0].kdf, Kdf::A1 | Kdf::A2 | Kdf::A3);
    let latest = if is_argon { Kdf::A3 } else { Kdf::B5 };
    ensure!(is_argon != argon.is_empty() && hdr.slots[0].kdf == latest, "the password was hashed by {:?}", hdr.slots[0].kdf);
    said_hashes(&d, &if hash.is_empty() { vec![] } else { vec![hash_of(&out)] })?;
    match passes {
        Some(n) => erased(&d.log, "w/in", size, n)?,
        None => ensure!(touched(&d.log, "w/in").is_none(), "the input was touched: {:?}", touched(&d.log, "w/in")),
    }
    Ok(format!("{size} {erase} {hash} {argon} {aes} {header} {force}"))
}

pub fn c30_decrypt(ex: &Ex, kind: &str, v: u8, m: Mode, thorough: bool) -> Res {
    let a = *one(ex, "alg", &ALGS);
    let erase = *one(ex, "erase", &["", "--erase", "--erase=0", "--erase=3", "--erase=x"]);
    let hash = *one(ex, "hash", &["", "-H"]);
    let header = *one(ex, "header", &["", "--header h", "--header=h"]);
    let force = *one(ex, "force", &["", "-f"]);
    let style = ex.pick("style", STYLES) as usize;
    let size = *one(ex, "size", if thorough { &[0usize, 50, BLOCK + 3][..] } else { &[50][..] });
    let mut w = World::new();
    let plain = bytes(1, size);
    let pws = if v == 5 { vec![(b"other".to_vec(), Kdf::A3), (PW.to_vec(), Kdf::B5)] } else { vec![(PW.to_vec(), Kdf::B4)] };
    let made = make(v, a, m, &pws, &plain, 4);
    let input = if header.is_empty() { made.file() } else { made.payload.clone() };
    w.file("in", &input).file("key", PW).file("h", &made.header);
    w.start();
    let r = args(style, "decrypt", &["in", "out"], &split(&[erase, hash, header, force, key_of(kind).0]));
    let d = w.run(&with_key(r, kind).log());
    d.judge()?;
    ensure!(d.ok(), "decrypting failed: {}", d.short());
    let passes = passes_of(erase);
    effects(&w, &["out"], if passes.is_some() { &["in"] } else { &[] }, &d)?;
    ensure!(w.get("out").unwrap() == plain, "decrypted to other bytes");
    generated(kind, &d)?;
    said_hashes(&d, &if hash.is_empty() { vec![] } else { vec![hash_of(&input)] })?;
    match passes {
        Some(n) => erased(&d.log, "w/in", input.len(), n)?,
        None => ensure!(touched(&d.log, "w/in").is_none(), "the input was touched: {:?}", touched(&d.log, "w/in")),
    }
    ensure!(touched(&d.log, "w/h").is_none(), "the header file was touched");
    Ok(format!("{a:?} {erase} {hash} {header} {force}"))
}

/// The directory that is packed
pub type Files = BTreeMap<String, Option<Vec<u8>>>;

pub fn put_d(w: &World, name: &str) -> Vec<(String, Option<Vec<u8>>)> {
    let v = tree_d(name);
    for (p, c) in &v {
        match c {
            Some(c) => w.file(p, c),
            None => w.mkdir(p.trim_end_matches('/')),
        };
    }
    v
}

pub fn tree_d(name: &str) -> Vec<(String, Option<Vec<u8>>)> {
    let files: [(&str, Option<Vec<u8>>); 6] = [
        ("", None),
        ("a.txt", Some(b"the content of a".repeat(30))),
        ("empty", Some(vec![])),
        ("sub", None),
        ("sub/b", Some(bytes(6, 700))),
        ("sub/deep", None),
    ];
    let mut v = vec![];
    for (f, c) in files {
        let p = if f.is_empty() { name.to_string() } else { format!("{name}/{f}") };
        match c {
            Some(c) => v.push((p, Some(c))),
            None => v.push((format!("{p}/"), None)),
        }
    }
    v
}

pub fn is_zstd(zip: &[u8]) -> Res<Vec<(String, bool)>> {
    let Ok(mut a) = zip::ZipArchive::new(std::io::Cursor::new(zip.to_vec())) else { viol!("not an archive") };
    let mut v = vec![];
    for i in 0..a.len() {
        let Ok(f) = a.by_index_raw(i) else { viol!("unreadable entry {i}") };
        if !f.name().ends_with('/') {
            v.push((f.name().to_string(), f.compression() == zip::CompressionMethod::Zstd));
        }
    }
    Ok(v)
}

pub fn c30_pack(ex: &Ex, kind: &str) -> Res {
    let dirs: &[&str] = if ex.pick("directories", 2) == 0 { &["d"] } else { &["d", "e"] };
    let erase = *one(ex, "erase", &["", "--erase"]);
    let hash = *one(ex, "hash", &["", "-H"]);
    let argon = *one(ex, "argon", &["", "--argon"]);
    let aes = *one(ex, "aes", &["", "--aes"]);
    let header = *one(ex, "header", &["", "--header h"]);
    // (whoever erases directories is asked, unless forced)
    let force = if erase.is_empty() { *one(ex, "force", &["", "-f"]) } else { "-f" };
    let zstd = *one(ex, "zstd", &["", "-z", "--zstd"]);
    let verbose = *one(ex, "verbose", &["", "-v"]);
    let style = ex.pick("style", 2) as usize;
    let mut w = World::new();
    let mut want = vec![];
    for d in dirs {
        want.extend(put_d(&w, d));
    }
    want.sort();
    w.file("key", PW).file("other", b"bystander");
    w.start();
    let files: Vec<&str> = dirs.iter().copied().chain(["out"]).collect();
    let r = args(style, "pack", &files, &split(&["-r", erase, hash, argon, aes, header, force, zstd, verbose, key_of(kind).0]));
    let d = w.run(&with_key(r, kind).log());
    d.judge()?;
    ensure!(d.ok(), "packing failed: {}", d.short());
    let mut made = vec!["out"];
    if !header.is_empty() {
        made.push("h");
    }
    let names: Vec<&str> = want.iter().map(|(n, _)| n.trim_end_matches('/')).collect();
    effects(&w, &made, if erase.is_empty() { &[] } else { &names }, &d)?;
    let pw = generated(kind, &d)?;
    let out = w.get("out").unwrap();
    let h = w.get("h");
    let got = packed(h.as_deref(), &out, &pw)?;
    ensure!(got == want, "packed {:?}", got.iter().map(|x| &x.0).collect::<Vec<_>>());
    let (hdr, z) = open(h.as_deref(), &out, &pw).unwrap();
    ensure!((hdr.alg == Alg::Aes) != aes.is_empty() && hdr.alg != Alg::Deoxys, "encrypted by {:?}", hdr.alg);
    ensure!(hdr.slots[0].kdf == if argon.is_empty() { Kdf::B5 } else { Kdf::A3 }, "the password was hashed by {:?}", hdr.slots[0].kdf);
    for (n, c) in is_zstd(&z)? {
        ensure!(c != zstd.is_empty(), "{n} is compressed by zstd: {c}");
    }
    said_hashes(&d, &if hash.is_empty() { vec![] } else { vec![hash_of(&out)] })?;
    for (n, c) in &want {
        if c.is_some() {
            let told = d.out.split_whitespace().any(|x| x.ends_with(n));
            ensure!(told != verbose.is_empty(), "verbose={verbose:?}, but the output is {:?}", d.out);
        }
        let n = format!("w/{n}");
        match c {
            Some(c) if !erase.is_empty() => erased(&d.log, &n, c.len(), 1)?,
            Some(_) => ensure!(touched(&d.log, &n).is_none(), "{n} was touched: {:?}", touched(&d.log, &n)),
            None => {}
        }
    }
    Ok(format!("{erase} {hash} {argon} {aes} {header} {force} {zstd}"))
}

pub fn entries() -> Vec<(&'static str, Option<&'static [u8]>)> {
    vec![("t/", None), ("t/a", Some(b"content of a")), ("t/s/", None), ("t/s/b", Some(b"content of b")), ("t/empty", Some(b""))]
}

pub fn sealed(header: bool, a: Alg) -> (Made, Vec<u8>) {
    let z = scen::archive(&entries(), false);
    let m = make(5, a, Mode::Stream, &[(PW.to_vec(), Kdf::B5)], &z, 21);
    let f = if header { m.payload.clone() } else { m.file() };
    (m, f)
}

pub fn unpacked(w: &World, to: &str) -> Res<()> {
    for (n, c) in entries() {
        let p = format!("{to}/{}", n.trim_end_matches('/'));
        match c {
            Some(c) => ensure!(w.get(&p).as_deref() == Some(c), "{p} isn't what was packed"),
            None => ensure!(w.path(&p).is_dir(), "{p} isn't a directory"),
        }
    }
    Ok(())
}

pub fn c30_unpack(ex: &Ex, kind: &str) -> Res {
    let erase = *one(ex, "erase", &["", "--erase", "--erase=0", "--erase=2", "--erase=x"]);
    let hash = *one(ex, "hash", &["", "-H"]);
    let header = *one(ex, "header", &["", "--header h"]);
    let force = *one(ex, "force", &["", "-f"]);
    let verbose = *one(ex, "verbose", &["", "-v", "--verbose"]);
    let alg = *one(ex, "alg", &ALGS);
    let there = ex.pick("directory is there", 2) == 1;
    let style = ex.pick("style", STYLES) as usize;
    let mut w = World::new();
    let (m, f) = sealed(!header.is_empty(), alg);
    w.file("in", &f).file("h", &m.header).file("key", PW);
    if there {
        w.file("to/before", b"before");
    }
    w.start();
    let r = args(style, "unpack", &["in", "to"], &split(&[erase, hash, header, force, verbose, key_of(kind).0]));
    let d = w.run(&with_key(r, kind).log());
    d.judge()?;
    ensure!(d.ok(), "unpacking failed: {}", d.short());
    let made: Vec<String> = entries().iter().map(|(n, _)| format!("to/{}", n.trim_end_matches('/'))).collect();
    let mut made: Vec<&str> = made.iter().map(String::as_str).collect();
    made.push("to");
    let passes = passes_of(erase);
    effects(&w, &made, if passes.is_some() { &["in"] } else { &[] }, &d)?;
    unpacked(&w, "to")?;
    said_hashes(&d, &if hash.is_empty() { vec![] } else { vec![hash_of(&f)] })?;
    match passes {
        Some(n) => erased(&d.log, "w/in", f.len(), n)?,
        None => ensure!(touched(&d.log, "w/in").is_none(), "the input was touched: {:?}", touched(&d.log, "w/in")),
    }
    for n in ["a", "b", "empty"] {
        let told = d.out.lines().any(|l| l.split(|c: char| c.is_whitespace() || c == '/').any(|x| x == n));
        ensure!(told != verbose.is_empty(), "verbose={verbose:?}, but the output is {:?}", d.out);
    }
    Ok(format!("{erase} {hash} {header} {force} {verbose} {there}"))
}

pub fn c30_erase(ex: &Ex) -> Res {
    let passes = *one(ex, "passes", &["", "--passes=0", "--passes=1", "--passes=2", "--passes=5", "--passes=x"]);
    let force = *one(ex, "force", &["", "-f", "--force"]);
    let what = *one(ex, "what", &["file", "empty", "large", "directory"]);
    let style = *one(ex, "style", &[0usize, 2]);
    let n = passes_of(passes).unwrap_or(1);
    let mut w = World::new();
    let mut files = vec![];
    match what {
        "directory" => files = put_d(&w, "f"),
        "large" => files.push(("f".into(), Some(bytes(1, BLOCK + 77)))),
        "empty" => files.push(("f".into(), Some(vec![]))),
        _ => files.push(("f".into(), Some(bytes(1, 600)))),
    }
    for (f, c) in &files {
        if let Some(c) = c {
            w.file(f, c);
        }
    }
    w.file("other", b"bystander").file("e/bystander", b"too");
    w.start();
    let mut r = args(style, "erase", &["f"], &split(&[passes, force])).log();
    if what == "directory" && force.is_empty() {
        r = r.stdin(b"y\n");
    }
    let d = w.run(&r);
    d.judge()?;
    ensure!(d.ok(), "erasing failed: {}", d.short());
    let names: Vec<&str> = files.iter().map(|(n, _)| n.trim_end_matches('/')).collect();
    effects(&w, &[], &names, &d)?;
    for (f, c) in &files {
        if let Some(c) = c {
            erased(&d.log, &format!("w/{f}"), c.len(), n)?;
        }
    }
    said_hashes(&d, &[])?;
    Ok(format!("{passes} {force} {what}"))
}

pub fn c30_hash(ex: &Ex) -> Res {
    let sizes = [0usize, 1, 1000, BLOCK, BLOCK + 1, 3 * BLOCK + 5];
    let n = 1 + ex.pick("files", 3) as usize;
    let mut w = World::new();
    let mut files = vec![];
    for i in 0..n {
        let s = *one(ex, "size", &sizes);
        let name = ["f", "g", "h"][i];
        let c = bytes(i as u64, s);
        w.file(name, &c);
        files.push((name, c));
    }
    w.start();
    let mut a = vec!["hash"];
    a.extend(files.iter().map(|f| f.0));
    let d = w.run(&run(&a).log());
    d.judge()?;
    ensure!(d.ok(), "hashing failed: {}", d.short());
    effects(&w, &[], &[], &d)?;
    ensure!(d.log.iter().all(|c| !c.modifies()), "hashing modifies something");
    said_hashes(&d, &files.iter().map(|f| hash_of(&f.1)).collect::<Vec<_>>())?;
    let lines: Vec<&str> = d.out.lines().filter(|l| !hashes(l).is_empty()).collect();
    for ((f, _), l) in files.iter().zip(lines) {
        ensure!(l.contains(f), "the hash of {f} is printed as {l}");
    }
    Ok(format!("{n}"))
}

pub fn c30_help(ex: &Ex) -> Res {
    let mut w = World::new();
    w.file("in", b"content").file("key", PW);
    w.mkdir("d");
    w.start();
    let how = *one(ex, "how", &["--help", "-h", "help"]);
    let d = w.run(&run(&[how]).log());
    d.judge()?;
    ensure!(d.ok(), "{how} failed: {}", d.short());
    let mut cmds: Vec<String> = vec![];
    let mut on = false;
    for l in d.out.lines() {
        if !l.starts_with(' ') {
            on = l.starts_with("Commands:");
        } else if on {
            cmds.extend(l.split([' ', ',']).find(|x| !x.is_empty()).map(String::from));
        }
    }
    for c in ["encrypt", "decrypt", "pack", "unpack", "erase", "hash"] {
        ensure!(cmds.iter().any(|x| x == c), "the help doesn't list {c}: {}", d.out);
    }
    for c in &cmds {
        if c == "help" {
            continue;
        }
        for a in [vec![c.as_str(), "--help"], vec!["help", c.as_str()], vec![c.as_str(), "-h"]] {
            let d = w.run(&run(&a).log());
            d.judge()?;
            ensure!(d.ok() && d.out.contains("Usage"), "{a:?} failed: {}", d.short());
        }
        // what it needs is missing
        let d = w.run(&run(&[c.as_str()]));
        d.judge()?;
        ensure!(!d.ok(), "{c} does something without arguments: {}", d.short());
    }
    let d = w.run(&run(&["--version"]));
    ensure!(d.ok() && d.out.contains(char::is_numeric), "--version: {}", d.short());
    effects(&w, &[], &[], &d)?;
    Ok(cmds.join(" "))
}

/// An option that has no effect (known finding)
pub fn c30_recursive() -> Res {
    let mut w = World::new();
    put_d(&w, "d");
    w.file("key", PW);
    w.start();
    let d = w.run(&run(&["pack", "d", "out", "-k", "key"]));
    ensure!(d.ok(), "packing failed: {}", d.short());
    let got = packed(None, &w.get("out").unwrap(), PW)?;
    ensure!(got.iter().any(|e| e.0 == "d/a.txt"), "packing lost d/a.txt");
    if got.iter().any(|e| e.0 == "d/sub/b") {
        return Err(Viol { msg: "pack without --recursive packs what is within inner directories".into(), sig: "recursive-has-no-effect".into() });
    }
    Ok("not recursive".into())
}

pub fn c30(thorough: bool) -> Vec<Job> {
    let mut jobs = vec![];
    for kind in ["keyfile", "keyfile long", "env", "auto", "auto=3", "auto=x"] {
        jobs.push(Job::new(format!("encrypt, {kind}"), 0, move |ex| c30_encrypt(ex, kind, thorough)));
        if thorough || kind != "keyfile long" {
            jobs.push(Job::new(format!("pack, {kind}"), 0, move |ex| c30_pack(ex, kind)));
        }
        if !kind.starts_with("auto") {
            for (v, m) in [(1, Mode::Memory), (1, Mode::Stream), (2, Mode::Stream), (3, Mode::Memory), (4, Mode::Stream), (5, Mode::Stream), (5, Mode::Memory)] {
                if thorough || v == 5 || (v + u8::from(m == Mode::Stream) + kind.len() as u8) % 2 == 0 {
                    jobs.push(Job::new(format!("decrypt V{v} {m:?}, {kind}"), 0, move |ex| c30_decrypt(ex, kind, v, m, thorough)));
                }
            }
            jobs.push(Job::new(format!("unpack, {kind}"), 0, move |ex| c30_unpack(ex, kind)));
        }
    }
    jobs.push(Job::new("erase", 0, c30_erase));
    jobs.push(Job::new("hash", 0, c30_hash));
    jobs.push(Job::new("help", 0, c30_help));
    jobs.push(Job::new("pack without --recursive", 0, |_| c30_recursive()));
    jobs
}

// ---- faults and kills ----

pub type On<T> = Arc<dyn Fn(&World, &Done) -> Res<T> + Send + Sync>;

/// A use of the command
#[derive(Clone)]
pub struct Use {
    pub name: String,
    pub run: Run,
    pub setup: Arc<dyn Fn(&World) + Send + Sync>,
    /// all that was asked for has been done
    pub complete: On<()>,
    /// nothing is lost
    pub safe: On<()>,
}

pub fn plain_of(size: usize) -> Vec<u8> {
    bytes(1, size)
}

pub fn intact(w: &World, files: &[(String, Vec<u8>)]) -> bool {
    files.iter().all(|(n, c)| w.get(n).as_ref() == Some(c))
}

pub fn uses(erasing: bool, thorough: bool) -> Vec<Use> {
    let mut v = vec![];
    let er: &'static str = if erasing { "--erase" } else { "" };
    let gone = move |w: &World, n: &str| -> Res<()> {
        ensure!(w.path(n).exists() != erasing, "{n}: exists is {} after erase={erasing}", !erasing == false);
        Ok(())
    };
    let tmp_empty = |w: &World| -> Res<()> {
        let left: Vec<_> = std::fs::read_dir(w.root.join("tmp")).unwrap().map(|e| e.unwrap().file_name()).collect();
        ensure!(left.is_empty(), "temporary files are left: {left:?}");
        Ok(())
    };
    let mut sizes = vec![60usize, 0];
    if thorough {
        sizes.push(BLOCK + 9);
    }
    for &size in &sizes {
        for header in [false, true] {
            for existing in [false, true] {
                let mut f = vec!["-k", "key", "-f", er, "-H"];
                if header {
                    f.extend(["--header", "h"]);
                }
                let check = move |w: &World| -> Res<()> {
                    let h = w.get("h");
                    let (Some(out), true) = (w.get("out"), !header || h.is_some()) else { viol!("there is no output") };
                    match open(if header { h.as_deref() } else { None }, &out, PW) {
                        Ok((_, d)) if d == plain_of(size) => Ok(()),
                        Ok(_) => viol!("the output holds other bytes"),
                        Err(e) => viol!("the output is useless: {e}"),
                    }
                };
                v.push(Use {
                    name: format!("encrypt {size} bytes{}{}", if header { ", header file" } else { "" }, if existing { ", over existing files" } else { "" }),
                    run: args(0, "encrypt", &["in", "out"], &split(&f)),
                    setup: Arc::new(move |w| {
                        w.file("in", &plain_of(size)).file("key", PW);
                        if existing {
                            w.file("out", &bytes(9, 999)).file("h", &bytes(10, 999));
                        }
                    }),
                    complete: Arc::new(move |w, d| {
                        check(w)?;
                        gone(w, "in")?;
                        said_hashes(d, &[hash_of(&w.get("out").unwrap())])
                    }),
                    safe: Arc::new(move |w, _| if intact(w, &[("in".into(), plain_of(size))]) { Ok(()) } else { check(w) }),
                });
                let made = move |v: u8, m: Mode| make(v, if v % 2 == 0 { Alg::Aes } else { Alg::XChaCha }, m, &[(PW.to_vec(), if v == 4 { Kdf::B4 } else { Kdf::B5 })], &plain_of(size), 8);
                for (ver, m) in [(5u8, Mode::Stream), (4, Mode::Stream), (3, Mode::Memory), (1, Mode::Stream)] {
                    if ver < 5 && (existing || (!thorough && size == 0)) {
                        continue;
                    }
                    let input = move || if header { made(ver, m).payload } else { made(ver, m).file() };
                    let check = move |w: &World| -> Res<()> {
                        ensure!(w.get("out") == Some(plain_of(size)), "the output isn't the plaintext");
                        Ok(())
                    };
                    v.push(Use {
                        name: format!("decrypt V{ver} {m:?} {size} bytes{}{}", if header { ", header file" } else { "" }, if existing { ", over existing files" } else { "" }),
                        run: args(0, "decrypt", &["in", "out"], &split(&f)),
                        setup: Arc::new(move |w| {
                            w.file("in", &input()).file("key", PW).file("h", &made(ver, m).header);
                            if existing {
                                w.file("out", &bytes(9, 999));
                            }
                        }),
                        complete: Arc::new(move |w, d| {
                            check(w)?;
                            gone(w, "in")?;
                            said_hashes(d, &[hash_of(&input())])
                        }),
                        safe: Arc::new(move |w, _| {
                            ensure!(w.get("h") == Some(made(ver, m).header), "the header file was changed");
                            if intact(w, &[("in".into(), input())]) {
                                Ok(())
                            } else {
                                check(w)
                            }
                        }),
                    });
                }
            }
        }
    }
    for header in [false, true] {
        for zstd in [false, true] {
            for two in [false, true] {
                if two && !thorough && (header || zstd) {
                    continue;
                }
                let mut f = vec!["-k", "key", "-f", er, "-H"];
                if header {
                    f.extend(["--header", "h"]);
                }
                if zstd {
                    f.push("-z");
                }
                let dirs: &'static [&'static str] = if two { &["d", "e"] } else { &["d"] };
                let files: Vec<&str> = dirs.iter().copied().chain(["out"]).collect();
                let want = move || {
                    let w = World::new();
                    let mut v: Vec<_> = dirs.iter().flat_map(|d| put_d(&w, d)).collect();
                    v.sort();
                    v
                };
                let want: Arc<OnceLock<Vec<(String, Option<Vec<u8>>)>>> = {
                    let c = Arc::new(OnceLock::new());
                    let _ = c.set(want());
                    c
                };
                let want2 = want.clone();
                let check = move |w: &World| -> Res<()> {
                    let h = w.get("h");
                    let (Some(out), true) = (w.get("out"), !header || h.is_some()) else { viol!("there is no output") };
                    let got = packed(if header { h.as_deref() } else { None }, &out, PW)?;
                    ensure!(&got == want2.get().unwrap(), "the output holds only {:?}", got.iter().map(|e| &e.0).collect::<Vec<_>>());
                    Ok(())
                };
                let check = Arc::new(check);
                let (c1, c2) = (check.clone(), check);
                v.push(Use {
                    name: format!("pack{}{}{}", if header { ", header file" } else { "" }, if zstd { ", zstd" } else { "" }, if two { ", two directories" } else { "" }),
                    run: args(0, "pack", &files, &split(&f)),
                    setup: Arc::new(move |w| {
                        for d in dirs {
                            put_d(w, d);
                        }
                        w.file("key", PW);
                    }),
                    complete: Arc::new(move |w, d| {
                        c1(w)?;
                        for d in dirs {
                            gone(w, d)?;
                        }
                        tmp_empty(w)?;
                        said_hashes(d, &[hash_of(&w.get("out").unwrap())])
                    }),
                    safe: Arc::new(move |w, _| {
                        let files: Vec<_> = want.get().unwrap().iter().filter_map(|(n, c)| Some((n.clone(), c.clone()?))).collect();
                        if intact(w, &files) {
                            Ok(())
                        } else {
                            c2(w)
                        }
                    }),
                });
            }
        }
    }
    for header in [false, true] {
        for existing in [false, true] {
            let mut f = vec!["-k", "key", "-f", er, "-H"];
            if header {
                f.extend(["--header", "h"]);
            }
            v.push(Use {
                name: format!("unpack{}{}", if header { ", header file" } else { "" }, if existing { ", over existing files" } else { "" }),
                run: args(0, "unpack", &["in", "to"], &split(&f)),
                setup: Arc::new(move |w| {
                    let (m, f) = sealed(header, Alg::XChaCha);
                    w.file("in", &f).file("key", PW).file("h", &m.header);
                    if existing {
                        w.file("to/t/a", &bytes(4, 300)).file("to/t/s/b", b"").file("to/t/mine", b"mine");
                    }
                }),
                complete: Arc::new(move |w, d| {
                    unpacked(w, "to")?;
                    gone(w, "in")?;
                    tmp_empty(w)?;
                    said_hashes(d, &[hash_of(&sealed(header, Alg::XChaCha).1)])
                }),
                safe: Arc::new(move |w, _| {
                    ensure!(!existing || w.get("to/t/mine").as_deref() == Some(b"mine"), "a bystander was changed");
                    if intact(w, &[("in".into(), sealed(header, Alg::XChaCha).1)]) {
                        Ok(())
                    } else {
                        unpacked(w, "to")
                    }
                }),
            });
        }
    }
    if erasing {
        for dir in [false, true] {
            for passes in ["--passes=0", "--passes=2"] {
                v.push(Use {
                    name: format!("erase {} {passes}", if dir { "a directory" } else { "a file" }),
                    run: run(&["erase", "f", "-f", passes]),
                    setup: Arc::new(move |w| {
                        w.file("other", b"bystander").file("g/other", b"bystander");
                        if dir {
                            put_d(w, "f");
                            std::os::unix::fs::symlink("../g", w.path("f/link")).unwrap();
                        } else {
                            w.file("f", &bytes(2, 600));
                        }
                    }),
                    complete: Arc::new(move |w, _| {
                        ensure!(!w.path("f").exists(), "f is still there");
                        Ok(())
                    }),
                    safe: Arc::new(move |w, _| {
                        ensure!(intact(w, &[("other".into(), b"bystander".to_vec()), ("g/other".into(), b"bystander".to_vec())]), "a bystander was changed");
                        Ok(())
                    }),
                });
            }
        }
    } else {
        v.push(Use {
            name: "hash".into(),
            run: run(&["hash", "f", "g"]),
            setup: Arc::new(|w| {
                w.file("f", &bytes(1, 700)).file("g", &bytes(2, BLOCK + 5));
            }),
            complete: Arc::new(|_, d| said_hashes(d, &[hash_of(&bytes(1, 700)), hash_of(&bytes(2, BLOCK + 5))])),
            safe: Arc::new(|_, _| Ok(())),
        });
    }
    v
}

impl Use {
    pub fn world(&self) -> World {
        let mut w = World::new();
        (self.setup)(&w);
        w.start();
        w
    }
}

/// The calls of an undisturbed run
pub fn calls(u: &Use, base: &OnceLock<Vec<Call>>) -> Res<Vec<Call>> {
    if let Some(b) = base.get() {
        return Ok(b.clone());
    }
    let w = u.world();
    let d = w.run(&u.run.clone().log());
    d.judge()?;
    ensure!(d.ok(), "{} failed: {}", u.name, d.short());
    (u.complete)(&w, &d)?;
    (u.safe)(&w, &d)?;
    let c: Vec<Call> = d.log.into_iter().filter(|c| c.n > 0).collect();
    ensure!(!c.is_empty() && c.iter().enumerate().all(|(i, c)| c.n == i as u64 + 1), "the calls of {} aren't in order", u.name);
    let _ = base.set(c.clone());
    Ok(c)
}

pub fn describe(c: &Call) -> String {
    format!("call {} ({} {})", c.n, c.kind, c.path)
}

pub fn c31(thorough: bool) -> Vec<Job> {
    let mut jobs = vec![];
    for u in uses(true, thorough) {
        let base = OnceLock::new();
        jobs.push(Job::new(u.name.clone(), 0, move |ex| {
            let base = calls(&u, &base)?;
            let c = one(ex, "call", &base).clone();
            let mut acts: Vec<String> = vec!["err:5".into()];
            if c.modifies() || thorough {
                acts.insert(0, "kill".into());
            }
            if c.kind == "write" {
                acts.extend(["half", "full"].map(String::from));
            }
            if matches!(c.kind.as_str(), "read" | "write") {
                acts.extend(["short", "err:4"].map(String::from));
            }
            if thorough {
                acts.extend(["err:13", "err:28", "err:2", "err:1"].map(String::from));
            }
            let act = one(ex, "what", &acts).clone();
            let w = u.world();
            let d = w.run(&u.run.clone().fault(c.n, &act));
            let killed = d.code == Some(77);
            if !killed {
                d.judge().map_err(|v| Viol { msg: format!("{act} at {}: {}", describe(&c), v.msg), ..v })?;
            }
            (u.safe)(&w, &d).map_err(|v| Viol { msg: format!("{act} at {}: data is lost: {} ({})", describe(&c), v.msg, d.short()), ..v })?;
            count(if killed { "kills" } else { "failures" }, 1);
            Ok(format!("{act} {} {:?}", c.kind, d.code))
        }));
    }
    jobs
}

pub struct Disturbed<'a> {
    pub u: &'a Use,
    pub w: World,
    pub d: Done,
    /// the call that was disturbed, in the undisturbed run
    pub c: Call,
    pub act: String,
    pub base: Vec<Call>,
}

/// Every call fails or is cut short.
pub fn disturbed(u: Use, thorough: bool, judge: impl Fn(&Disturbed) -> Res<()> + Send + Sync + 'static) -> Job {
    let base = OnceLock::new();
    Job::new(u.name.clone(), 0, move |ex| {
        let base = calls(&u, &base)?;
        let c = one(ex, "call", &base).clone();
        let mut acts: Vec<String> = vec!["err:5".into()];
        match c.kind.as_str() {
            "write" => acts.extend(["full", "err:28", "short", "err:4"].map(String::from)),
            "read" => acts.extend(["short", "err:4"].map(String::from)),
            _ => acts.extend(["err:13", "err:28"].map(String::from)),
        }
        if thorough {
            acts.extend(["err:2", "err:1", "err:24", "err:122"].map(String::from));
        }
        let act = one(ex, "what", &acts).clone();
        let w = u.world();
        let d = w.run(&u.run.clone().log().fault(c.n, &act));
        let outcome = format!("{act} {} {:?}", c.kind, d.code);
        let told = format!("{act} at {}", describe(&c));
        judge(&Disturbed { u: &u, w, d, c, act, base }).map_err(|v| Viol { msg: format!("{told}: {}", v.msg), ..v })?;
        Ok(outcome)
    })
}

/// Success means that all has been done.
pub fn true_success(x: &Disturbed) -> Res<()> {
    x.d.judge()?;
    if x.d.ok() {
        (x.u.complete)(&x.w, &x.d).map_err(|v| Viol { msg: format!("it succeeded, but {} ({})", v.msg, x.d.short()), ..v })?;
    }
    Ok(())
}

pub fn faults(u: Use, thorough: bool) -> Job {
    disturbed(u, thorough, |x| {
        true_success(x)?;
        // (the calls of threads may come in another order)
        let c = &x.c;
        let hit = x.d.log.iter().any(|y| y.n == c.n && y.kind == c.kind && (y.path == c.path || (y.path.starts_with("tmp/") && c.path.starts_with("tmp/"))));
        if hit && matches!(c.kind.as_str(), "read" | "write") && (x.act == "short" || x.act == "err:4") {
            ensure!(x.d.ok(), "a partial or interrupted transfer is no failure: {}", x.d.short());
        }
        Ok(())
    })
}

pub fn c33(thorough: bool) -> Vec<Job> {
    let mut jobs = vec![];
    let mut all = uses(false, thorough);
    all.extend(uses(true, false).into_iter().map(|mut u| {
        u.name += " and erase";
        u
    }));
    jobs.extend(all.into_iter().map(|u| faults(u, thorough)));
    jobs.extend(bad_inputs(thorough));
    jobs
}

/// Inputs that can't be worked on: an exit status, a message, and nothing of the input changed
pub fn bad_inputs(thorough: bool) -> Vec<Job> {
    let mut jobs = vec![];
    fn refused(name: &str, w: &mut World, r: &Run, keep: &[&str]) -> Res {
        w.start();
        let d = w.run(r);
        d.judge().map_err(|v| Viol { msg: format!("{name}: {}", v.msg), ..v })?;
        ensure!(!d.ok(), "{name}: it claims success: {}", d.short());
        let after = w.tree();
        for (k, (a, b)) in diff(&w.before, &after) {
            ensure!(!keep.iter().any(|x| k == format!("w/{x}")), "{name}: {k} changed from {a:?} to {b:?}");
            ensure!(!k.starts_with("tmp/"), "{name}: {k} is left");
        }
        count("bad_inputs", 1);
        Ok(format!("{:?}", d.code))
    }
    for (v, a, m, header) in [(5, Alg::XChaCha, Mode::Stream, false), (5, Alg::Aes, Mode::Stream, true), (4, Alg::XChaCha, Mode::Stream, false), (3, Alg::Deoxys, Mode::Memory, false), (1, Alg::Aes, Mode::Stream, true)] {
        let made = make(v, a, m, &[(PW.to_vec(), if v == 4 { Kdf::B4 } else { Kdf::B5 })], b"a short text", 3);
        let f = if header { made.payload.clone() } else { made.file() };
        let total = f.len() + if header { made.header.len() } else { 0 };
        for how in ["cut", "flipped"] {
            let (made, f) = (made.header.clone(), f.clone());
            jobs.push(Job::new(format!("decrypting V{v} {m:?} header file={header}, {how}"), 0, move |ex| {
                let (hdr, mut f) = (made.clone(), f.clone());
                let step = if thorough { 1 } else { 3 };
                let i = ex.pick("byte", total.div_ceil(step) as u32) as usize * step;
                let mut h = hdr.clone();
                let t = if header && i < h.len() { &mut h } else { &mut f };
                let i = if header && i >= hdr.len() { i - hdr.len() } else { i };
                if how == "cut" {
                    t.truncate(i);
                } else {
                    t[i] ^= 0x41;
                }
                // some bytes of a header are neither authenticated nor of any use
                let still = Hdr::parse_lax(if header { &h } else { &f }).is_some_and(|x| {
                    let p = if header { &f[..] } else { f.get(hdr.len()..).unwrap_or(&[]) };
                    x.master(PW).and_then(|k| x.open_payload(&k, &x.aad(), p)).is_some()
                });
                let mut w = World::new();
                w.file("in", &f).file("h", &h).file("key", PW);
                let mut a = vec!["-d", "in", "out", "-k", "key", "--erase"];
                if header {
                    a.extend(["--header", "h"]);
                }
                if still {
                    w.start();
                    let d = w.run(&run(&a));
                    d.judge()?;
                    ensure!(!d.ok() || w.get("out").as_deref() == Some(b"a short text"), "decrypted to something else: {}", d.short());
                    return Ok(format!("no matter {:?}", d.code));
                }
                let r = refused("decrypting", &mut w, &run(&a), &["in", "h", "key"])?;
                ensure!(w.get("out").is_none_or(|o| o.is_empty()), "a damaged file gave output");
                Ok(r)
            }));
        }
    }
    // archives
    let zip = scen::archive(&entries(), false);
    for how in ["cut", "flipped"] {
        let zip = zip.clone();
        jobs.push(Job::new(format!("unpacking an archive, {how}"), 0, move |ex| {
            let step = if thorough { 1 } else { 2 };
            let i = ex.pick("byte", zip.len().div_ceil(step) as u32) as usize * step;
            let mut z = zip.clone();
            if how == "cut" {
                z.truncate(i);
            } else {
                z[i] ^= if thorough { 0x41 } else { 0xff };
            }
            let m = make(5, Alg::XChaCha, Mode::Stream, &[(PW.to_vec(), Kdf::B5)], &z, 1);
            let mut w = World::new();
            w.file("in", &m.file()).file("key", PW);
            w.start();
            let d = w.run(&run(&["-u", "in", "to", "-k", "key"]));
            d.judge()?;
            ensure!(how == "flipped" || !d.ok(), "a truncated archive was unpacked: {}", d.short());
            for (k, (a, b)) in diff(&w.before, &w.tree()) {
                ensure!(k.starts_with("w/to"), "{k} changed from {a:?} to {b:?}");
            }
            Ok(format!("{:?}", d.code))
        }));
    }
    jobs.push(Job::new("bad uses", 0, move |ex| {
        let good = make(5, Alg::XChaCha, Mode::Stream, &[(PW.to_vec(), Kdf::B5)], b"text", 3);
        let other = make(5, Alg::XChaCha, Mode::Stream, &[(PW.to_vec(), Kdf::B5)], b"text", 4);
        let list: Vec<(&str, Vec<&str>)> = vec![
            ("nothing", vec![]),
            ("unknown command", vec!["frobnicate"]),
            ("unknown option", vec!["encrypt", "in", "out", "-k", "key", "--frob"]),
            ("too many files", vec!["encrypt", "in", "out", "more", "-k", "key"]),
            ("one file", vec!["encrypt", "in", "-k", "key"]),
            ("encrypt missing", vec!["encrypt", "none", "out", "-k", "key", "--erase", "-f"]),
            ("encrypt directory", vec!["encrypt", "d", "out", "-k", "key", "--erase", "-f"]),
            ("encrypt into missing directory", vec!["encrypt", "in", "none/out", "-k", "key", "--erase", "-f"]),
            ("encrypt into directory", vec!["encrypt", "in", "d", "-k", "key", "--erase", "-f"]),
            ("encrypt below file", vec!["encrypt", "in", "key/out", "-k", "key", "--erase", "-f"]),
            ("header into missing directory", vec!["encrypt", "in", "out", "--header", "none/h", "-k", "key", "--erase", "-f"]),
            ("header into directory", vec!["encrypt", "in", "out", "--header", "d", "-k", "key", "--erase", "-f"]),
            ("header needs a name", vec!["encrypt", "in", "out", "-k", "key", "--header"]),
            ("no keyfile", vec!["encrypt", "in", "out", "-k", "none", "--erase", "-f"]),
            ("keyfile is directory", vec!["encrypt", "in", "out", "-k", "d", "--erase", "-f"]),
            ("empty keyfile", vec!["encrypt", "in", "out", "-k", "empty", "--erase", "-f"]),
            ("keyfile and auto", vec!["encrypt", "in", "out", "-k", "key", "--auto", "--erase", "-f"]),
            ("zero words", vec!["encrypt", "in", "out", "--auto=0", "--erase", "-f"]),
            ("minus one word", vec!["encrypt", "in", "out", "--auto=-1", "--erase", "-f"]),
            ("no terminal", vec!["encrypt", "in", "out", "--erase", "-f"]),
            ("decrypt missing", vec!["decrypt", "none", "out", "-k", "key", "--erase", "-f"]),
            ("decrypt directory", vec!["decrypt", "d", "out", "-k", "key", "--erase", "-f"]),
            ("decrypt plaintext", vec!["decrypt", "in", "out", "-k", "key", "--erase", "-f"]),
            ("decrypt empty", vec!["decrypt", "empty", "out", "-k", "key", "--erase", "-f"]),
            ("wrong password", vec!["decrypt", "enc", "out", "-k", "other", "--erase", "-f"]),
            ("wrong header", vec!["decrypt", "payload", "out", "-k", "key", "--header", "h2", "--erase", "-f"]),
            ("missing header", vec!["decrypt", "payload", "out", "-k", "key", "--header", "none", "--erase", "-f"]),
            ("directory as header", vec!["decrypt", "payload", "out", "-k", "key", "--header", "d", "--erase", "-f"]),
            ("header left out", vec!["decrypt", "payload", "out", "-k", "key", "--erase", "-f"]),
            ("decrypt into directory", vec!["decrypt", "enc", "d", "-k", "key", "--erase", "-f"]),
            ("pack missing", vec!["pack", "none", "out", "-k", "key", "--erase", "-f"]),
            ("pack file", vec!["pack", "in", "out", "-k", "key", "--erase", "-f"]),
            ("pack directory and file", vec!["pack", "d", "in", "out", "-k", "key", "--erase", "-f"]),
            ("pack directory and missing", vec!["pack", "d", "none", "out", "-k", "key", "--erase", "-f"]),
            ("pack into missing directory", vec!["pack", "d", "none/out", "-k", "key", "--erase", "-f"]),
            ("pack into directory", vec!["pack", "d", "e", "-k", "key", "--erase", "-f"]),
            ("pack into itself with erase", vec!["pack", "d", "d/out", "-k", "key", "--erase", "-f"]),
            ("unpack missing", vec!["unpack", "none", "to", "-k", "key", "--erase", "-f"]),
            ("unpack directory", vec!["unpack", "d", "to", "-k", "key", "--erase", "-f"]),
            ("unpack no archive", vec!["unpack", "enc", "to", "-k", "key", "--erase", "-f"]),
            ("unpack plaintext", vec!["unpack", "in", "to", "-k", "key", "--erase", "-f"]),
            ("unpack wrong password", vec!["unpack", "zip", "to", "-k", "other", "--erase", "-f"]),
            ("unpack into file", vec!["unpack", "zip", "in", "-k", "key", "--erase", "-f"]),
            ("unpack below file", vec!["unpack", "zip", "in/to", "-k", "key", "--erase", "-f"]),
            ("erase missing", vec!["erase", "none", "-f"]),
            ("hash missing", vec!["hash", "none"]),
            ("hash directory", vec!["hash", "d"]),
            ("hash one missing", vec!["hash", "in", "none", "enc"]),
            ("hash nothing", vec!["hash"]),
        ];
        let (name, a) = one(ex, "use", &list);
        let mut w = World::new();
        w.file("in", b"the plaintext").file("key", PW).file("other", b"no").file("empty", b"").file("d/f", b"x").file("e/f", b"y");
        w.file("enc", &good.file()).file("payload", &good.payload).file("h", &good.header).file("h2", &other.header).file("zip", &sealed(false, Alg::XChaCha).1);
        let keep = ["in", "key", "other", "empty", "d", "d/f", "e", "e/f", "enc", "payload", "h", "h2", "zip"];
        refused(name, &mut w, &run(a), &keep)
    }));
    jobs
}

// ---- existing files ----

/// What an answer means: yes, no, or none
pub fn means(script: &[u8]) -> (Option<bool>, usize) {
    let mut at = 0;
    loop {
        let rest = &script[at..];
        if rest.is_empty() {
            return (None, at);
        }
        let n = rest.iter().position(|b| *b == b'\n').map_or(rest.len(), |i| i + 1);
        let line = &rest[..n];
        at += n;
        if std::str::from_utf8(line).is_err() {
            return (None, at);
        }
        match line[0].to_ascii_lowercase() {
            b'\n' | b'\r' | b'y' => return (Some(true), at),
            b'n' => return (Some(false), at),
            _ => {}
        }
    }
}

const ANSWERS: [&[u8]; 20] = [
    b"y\n", b"n\n", b"", b"\n", b"Y\n", b"N\n", b"yes\n", b"no\n", b"No way\n", b"x\ny\n", b"x\nn\n", b"x\n", b"\xff\n", b"\r\n", b"y", b"n", b"1\n2\n3\nn\n", b"0\n\n", b" y\nn\n", b"\xff\xfe\ny\n",
];

/// Ways in which a file can be there
const THERE: [&str; 6] = ["file", "empty", "read-only", "link", "hard link", "no"];

pub fn put_target(w: &World, name: &str, how: &str) {
    match how {
        "file" => {
            w.file(name, b"precious");
        }
        "empty" => {
            w.file(name, b"");
        }
        "read-only" => {
            w.file(name, b"precious");
            use std::os::unix::fs::PermissionsExt;
            std::fs::set_permissions(w.path(name), std::fs::Permissions::from_mode(0o444)).unwrap();
        }
        "link" => {
            w.file(&format!("real-{name}"), b"precious").link(name, &format!("real-{name}"));
        }
        "hard link" => {
            w.file(&format!("real-{name}"), b"precious");
            std::fs::hard_link(w.path(&format!("real-{name}")), w.path(name)).unwrap();
        }
        _ => {}
    }
}

pub fn command(w: &World, cmd: &str, header: bool) -> Vec<&'static str> {
    w.file("key", PW);
    let mut a = match cmd {
        "encrypt" => {
            w.file("in", b"the plaintext");
            vec!["encrypt", "in", "out"]
        }
        "decrypt" => {
            let m = make(5, Alg::XChaCha, Mode::Stream, &[(PW.to_vec(), Kdf::B5)], b"the plaintext", 3);
            w.file("in", &if header { m.payload.clone() } else { m.file() });
            if header {
                w.file("h", &m.header);
            }
            vec!["decrypt", "in", "out"]
        }
        _ => {
            put_d(w, "in");
            vec!["pack", "in", "out"]
        }
    };
    a.extend(["-k", "key"]);
    if header {
        a.extend(["--header", "h"]);
    }
    a
}

pub fn done_well(w: &World, cmd: &str, header: bool) -> Res<()> {
    let h = w.get("h");
    let h = if header { h.as_deref() } else { None };
    let out = w.get("out");
    match cmd {
        "decrypt" => ensure!(out.as_deref() == Some(b"the plaintext"), "the output isn't the plaintext"),
        "encrypt" => match open(h, &out.unwrap_or_default(), PW) {
            Ok((_, d)) if d == b"the plaintext" => {}
            x => viol!("the output isn't what was asked for: {:?}", x.map(|x| x.1.len())),
        },
        _ => {
            let got = packed(h, &out.unwrap_or_default(), PW)?;
            ensure!(got.iter().any(|e| e.0 == "in/sub/b"), "the archive isn't complete");
        }
    }
    Ok(())
}

pub fn unchanged(w: &World, d: &Done, why: &str) -> Res<()> {
    if let Some((k, (a, b))) = diff(&w.before, &w.tree()).into_iter().next() {
        viol!("{why}, but {k} changed from {a:?} to {b:?}: {}", d.short());
    }
    Ok(())
}

pub fn c32_answers(ex: &Ex, cmd: &str, header: bool, thorough: bool) -> Res {
    let mut w = World::new();
    let mut a = command(&w, cmd, header);
    let there_out = *one(ex, "output is there", &THERE);
    // the header file is an output too, except when decrypting
    let there_h = if header && cmd != "decrypt" { *one(ex, "header is there", if thorough { &THERE[..] } else { &["file", "link", "no"][..] }) } else { "no" };
    put_target(&w, "out", there_out);
    put_target(&w, "h", there_h);
    let questions = usize::from(there_out != "no") + usize::from(there_h != "no");
    let force = *one(ex, "force", &["", "-f", "--force"]);
    let erase = ex.pick("erase", 2) == 1;
    if !force.is_empty() {
        a.push(force);
    }
    if erase {
        a.push("--erase");
    }
    let mut script = vec![];
    let mut ok = true;
    let mut declined = false;
    if force.is_empty() {
        for _ in 0..questions {
            let s = if questions == 1 || thorough { *one(ex, "answer", &ANSWERS) } else { *one(ex, "answer", &ANSWERS[..12]) };
            if script.last().is_some_and(|b| *b != b'\n') {
                script.push(b'\n');
            }
            let at = script.len();
            script.extend_from_slice(s);
            let (m, n) = means(&script[at..]);
            script.truncate(at + n);
            if m != Some(true) {
                ok = false;
                declined = m == Some(false);
                break;
            }
        }
        if erase && cmd == "pack" && ok {
            // the last question: erase the directory?
            if script.last().is_some_and(|b| *b != b'\n') {
                script.push(b'\n');
            }
            script.extend_from_slice(b"y\n");
        }
    } else if ex.pick("answer against force", 2) == 1 {
        script = b"n\nn\nn\n".to_vec();
    }
    // whatever could be read too far
    let late = ex.pick("more input", 2) == 1;
    if late && script.last() == Some(&b'\n') && !declined && ok {
        script.extend_from_slice(b"n\nn\n");
    } else if late && declined {
        script.extend_from_slice(b"y\ny\ny\n");
    }
    w.start();
    let d = w.run(&run(&a).stdin(&script));
    d.judge()?;
    if ok {
        let hard = there_out == "read-only" || there_h == "read-only";
        ensure!(d.ok() || hard, "everything was answered by yes, but it failed: {}", d.short());
        if d.ok() {
            done_well(&w, cmd, header)?;
            ensure!(w.path("in").exists() != erase, "the input is there: {erase}: {}", d.short());
        }
        for (k, (x, y)) in diff(&w.before, &w.tree()) {
            let k = k.strip_prefix("w/").unwrap_or(&k);
            let fine = ["out", "real-out"].contains(&k) || (cmd != "decrypt" && ["h", "real-h"].contains(&k)) || (erase && (k == "in" || k.starts_with("in/")));
            ensure!(fine, "{k} changed from {x:?} to {y:?}: {}", d.short());
        }
    } else {
        unchanged(&w, &d, if declined { "the user answered no" } else { "the user didn't answer" })?;
        ensure!(declined || !d.ok(), "nobody answered, but it claims success: {}", d.short());
        ensure!(!d.out.contains("hash"), "it goes on: {}", d.short());
    }
    Ok(format!("{there_out} {there_h} {force} {erase} {ok} {declined} {:?}", d.code))
}

/// The files of an archive that are there already, each with its own answer
pub fn c32_unpack(ex: &Ex, header: bool) -> Res {
    let mut w = World::new();
    let (m, f) = sealed(header, Alg::XChaCha);
    w.file("in", &f).file("key", PW).file("h", &m.header);
    let names = ["t/a", "t/s/b", "t/empty"];
    let mut there = vec![];
    for n in names {
        if ex.pick("is there", 2) == 1 {
            w.file(&format!("to/{n}"), format!("old {n}").as_bytes());
            there.push(n);
        }
    }
    let dirs = there.is_empty() && ex.pick("directories are there", 2) == 1;
    if dirs {
        w.mkdir("to/t/s");
    }
    let force = ex.pick("force", 2) == 1;
    let erase = ex.pick("erase", 2) == 1;
    // a question for everything that is there, in some order
    let kinds: [&[u8]; 6] = [b"y\n", b"n\n", b"", b"x\ny\n", b"x\nn\n", b"\xff\n"];
    let questions = if force { 0 } else { 6 };
    let mut script = vec![];
    let mut answers = vec![];
    let mut same = None;
    for i in 0..questions {
        // as many as there could be; whatever comes after the files is the same
        if i < there.len() + 2 {
            let s = *one(ex, "answer", &kinds[..if i < 3 { 6 } else { 2 }]);
            if s.is_empty() {
                break;
            }
            same = Some(s);
        }
        let s = same.unwrap();
        answers.push(means(s).0);
        script.extend_from_slice(s);
    }
    w.start();
    let mut a = vec!["unpack", "in", "to", "-k", "key"];
    if header {
        a.extend(["--header", "h"]);
    }
    if force {
        a.push("-f");
    }
    if erase {
        a.push("--erase");
    }
    let d = w.run(&run(&a).stdin(&script));
    d.judge()?;
    // which question was about what
    let mut asked: Vec<(String, Option<bool>)> = vec![];
    for (n, l) in d.out.split("[?] ").skip(1).filter_map(|q| q.split_once(" already exists")).enumerate() {
        let _ = n;
        let about = l.0.to_string();
        // a question is put again after an answer that makes no sense
        if !(asked.last().is_some_and(|x| x.0 == about) && l.1.contains("again")) {
            asked.push((about, None));
        }
    }
    let mut uniq: Vec<String> = vec![];
    for (q, _) in asked {
        if uniq.last() != Some(&q) {
            uniq.push(q);
        }
    }
    let answer = |n: &str| uniq.iter().position(|q| q == n).map(|i| answers.get(i).copied().flatten());
    let mut all = true;
    for n in names {
        let base = n.rsplit('/').next().unwrap();
        let new: &[u8] = entries().iter().find(|e| e.0 == n).unwrap().1.unwrap();
        let got = w.get(&format!("to/{n}"));
        if there.contains(&n) && !force {
            let Some(x) = answer(base) else { viol!("{n} is there, but nobody was asked: {}", d.short()) };
            if x == Some(true) {
                ensure!(got.as_deref() == Some(new), "{n} wasn't unpacked although the answer was yes: {}", d.short());
            } else {
                ensure!(got == Some(format!("old {n}").into_bytes()), "{n} was changed although the answer was {x:?}: {}", d.short());
                all = false;
                ensure!(x.is_some() || !d.ok(), "nobody answered, but it claims success: {}", d.short());
            }
        } else if d.ok() && got.as_deref() != Some(new) {
            // declining a directory's question may leave out what is within
            ensure!(uniq.iter().any(|q| q == "t" || q == "s"), "{n} wasn't unpacked: {}", d.short());
        }
    }
    if !d.ok() {
        ensure!(w.get("in") == Some(f), "it failed, but the input was changed: {}", d.short());
    } else if all && erase {
        ensure!(!w.path("in").exists(), "the input wasn't erased: {}", d.short());
    } else if !erase {
        ensure!(w.get("in") == Some(f), "the input was changed: {}", d.short());
    }
    for (k, (x, y)) in diff(&w.before, &w.tree()) {
        ensure!(k.starts_with("w/to") || k == "w/in", "{k} changed from {x:?} to {y:?}");
    }
    Ok(format!("{there:?} {force} {erase} {:?} {:?}", uniq, d.code))
}

/// A file that is named twice, in whatever way
pub fn c32_same(ex: &Ex, cmd: &str, thorough: bool) -> Res {
    let mut w = World::new();
    let mut a: Vec<String> = command(&w, cmd, false).into_iter().map(String::from).collect();
    w.mkdir("dir/sub").link("here", ".").link("link", "in").link("link2", "dir/../link").link("dir/up", "../in");
    let mut names: Vec<String> = ["in", "./in", "dir/../in", "link", "here/in", "link2", "dir/up", ".//in", "dir/sub/../../in", "here/here/link"].map(String::from).to_vec();
    names.push(w.path("in").to_string_lossy().into_owned());
    if cmd == "pack" {
        names.push("in/".into());
        names.push("in/.".into());
    } else {
        std::fs::hard_link(w.path("in"), w.path("hard")).unwrap();
        names.push("hard".into());
    }
    a[1] = one(ex, "input", &names).clone();
    let role = *one(ex, "what is the same", if cmd == "encrypt" { &["output", "header"][..] } else { &["output"][..] });
    let other = one(ex, "other", &names).clone();
    match role {
        "output" => a[2] = other,
        _ => a.extend(["--header".into(), other]),
    }
    let force = ex.pick("force", 2) == 1;
    let erase = ex.pick("erase", 2) == 1;
    if force {
        a.push("-f".into());
    }
    if erase {
        a.push("--erase".into());
    }
    let header = thorough && role == "output" && ex.pick("header file", 2) == 1;
    if header && cmd != "decrypt" {
        a.extend(["--header".into(), "h".into()]);
    }
    w.start();
    let d = w.run(&run(&a.iter().map(String::as_str).collect::<Vec<_>>()).stdin(b"y\ny\ny\ny\n"));
    d.judge()?;
    ensure!(!d.ok(), "{a:?}: input and {role} are the same file, but it claims success: {}", d.short());
    unchanged(&w, &d, &format!("{a:?}: input and {role} are the same file"))?;
    Ok(format!("{role} {force} {erase}"))
}

/// Output and header file, or output and what is erased, are the same or one within the other
pub fn c32_outputs(ex: &Ex, cmd: &str) -> Res {
    let mut w = World::new();
    let mut a: Vec<String> = command(&w, cmd, false).into_iter().map(String::from).collect();
    w.mkdir("dir/sub").link("here", ".").link("to-new", "new").link("to-old", "old").file("old", b"precious").link("dir/up", "../new").link("far", "dir/up").link("loop", "loop");
    w.file("dir/old2", b"precious").link("gone", "nowhere/new");
    std::fs::hard_link(w.path("old"), w.path("hard-old")).unwrap();
    let mut names: Vec<String> = ["new", "./new", "dir/../new", "here/new", "to-new", "dir/up", "far", "old", "./old", "to-old", "hard-old", "new2"].map(String::from).to_vec();
    names.push(w.path("new").to_string_lossy().into_owned());
    let within: Vec<String> = if cmd == "pack" {
        w.link("into", "in").link("into-new", "in/fresh").link("into-a", "in/a.txt");
        std::fs::hard_link(w.path("in/a.txt"), w.path("hard-a")).unwrap();
        ["in/fresh", "in/sub/fresh", "into/fresh", "into-new", "into-a", "in/a.txt", "hard-a", "./in/../in/fresh", "dir/../into/sub/fresh"].map(String::from).to_vec()
    } else {
        vec![]
    };
    let both: Vec<String> = names.iter().chain(&within).cloned().collect();
    a[2] = one(ex, "output", &both).clone();
    let h = if ex.pick("header file", 2) == 1 { Some(one(ex, "header", &both).clone()) } else { None };
    if let Some(h) = &h {
        a.extend(["--header".into(), h.clone()]);
    }
    let erase = ex.pick("erase", 2) == 1;
    if erase {
        a.push("--erase".into());
    }
    let force = ex.pick("force", 2) == 1;
    if force {
        a.push("-f".into());
    }
    w.start();
    let want: Vec<_> = w.before.iter().filter(|(k, _)| k.starts_with("w/in")).map(|(k, v)| (k.clone(), v.clone())).collect();
    let d = w.run(&run(&a.iter().map(String::as_str).collect::<Vec<_>>()).stdin(b"y\ny\ny\ny\n"));
    d.judge()?;
    // whatever it says, everything that was in the input is still there: in place or in the archive
    let after = w.tree();
    let hb = h.as_ref().and_then(|h| w.get(h));
    let out = w.get(&a[2]).unwrap_or_default();
    let sealed = if h.is_some() && hb.is_none() { None } else { open(hb.as_deref(), &out, PW).ok() };
    let inside: Vec<(String, Option<Vec<u8>>)> = match (&sealed, cmd) {
        (Some(_), "pack") => packed(hb.as_deref(), &out, PW).unwrap_or_default(),
        (Some((_, p)), _) => vec![("in".into(), Some(p.clone()))],
        _ => vec![],
    };
    for (k, v) in &want {
        let Node::File(c) = v else { continue };
        let name = k.strip_prefix("w/").unwrap();
        let is_target = |t: &String| {
            let same = |t: &str| *t == *name;
            same(t) || (["into-a", "hard-a"].contains(&t.as_str()) && name == "in/a.txt")
        };
        if is_target(&a[2]) || h.as_ref().is_some_and(is_target) {
            // overwritten, as was agreed
            continue;
        }
        let kept = after.get(k) == Some(v) || inside.iter().any(|e| e.0 == name && e.1.as_ref() == Some(c));
        ensure!(kept, "{a:?}: {name} is lost: {}", d.short());
    }
    if d.ok() {
        ensure!(sealed.is_some(), "{a:?}: it claims success, but the output can't be opened: {}", d.short());
        ensure!(w.path("in").exists() != erase, "{a:?}: the input is there: {erase}: {}", d.short());
    }
    for (k, (x, y)) in diff(&w.before, &after) {
        let k = k.strip_prefix("w/").unwrap_or(&k);
        let fine = both.iter().any(|n| n == k) || (erase && k.starts_with("in"));
        ensure!(fine, "{a:?}: {k} changed from {x:?} to {y:?}: {}", d.short());
        let precious = ["old", "hard-old", "dir/old2"].contains(&k);
        let named = |t: &String| ["old", "./old", "to-old", "hard-old"].contains(&t.as_str());
        ensure!(!precious || named(&a[2]) || h.as_ref().is_some_and(named), "{a:?}: {k} changed");
    }
    Ok(format!("{} {:?} {:?}", a[2], h, d.code))
}

/// The same directories, packed into a file that is within
pub fn c32_erase_answers(ex: &Ex) -> Res {
    let mut w = World::new();
    put_d(&w, "in");
    w.link("lnk", "in");
    let what = *one(ex, "what", &["in", "./in", "in/", "in/sub"]);
    let script = *one(ex, "answer", &ANSWERS);
    let force = ex.pick("force", 2) == 1;
    w.start();
    let mut a = vec!["erase", what];
    if force {
        a.push("-f");
    }
    let d = w.run(&run(&a).stdin(script));
    d.judge()?;
    // here, Enter means no
    let (m, n) = means(script);
    let enter = n > 0 && script[..n].rsplit(|b| *b == b'\n').nth(1).or(Some(&script[..n])).is_some_and(|l| l.is_empty() || l == b"\r");
    if force || (m == Some(true) && !enter) {
        ensure!(d.ok() && !w.path(what.trim_end_matches('/')).exists(), "{what} wasn't erased: {}", d.short());
        for (k, (x, y)) in diff(&w.before, &w.tree()) {
            ensure!(k.starts_with(&format!("w/{}", what.trim_start_matches("./").trim_end_matches('/'))), "{k} changed from {x:?} to {y:?}");
        }
    } else {
        unchanged(&w, &d, "nobody said yes")?;
        ensure!(m.is_some() || !d.ok(), "nobody answered, but it claims success: {}", d.short());
    }
    Ok(format!("{what} {m:?} {force}"))
}

pub fn c32(thorough: bool) -> Vec<Job> {
    let mut jobs = vec![];
    for cmd in ["encrypt", "decrypt", "pack"] {
        for header in [false, true] {
            jobs.push(Job::new(format!("{cmd} over existing files, header file={header}"), 0, move |ex| c32_answers(ex, cmd, header, thorough)));
        }
        jobs.push(Job::new(format!("{cmd} onto its input"), 0, move |ex| c32_same(ex, cmd, thorough)));
        if cmd != "decrypt" {
            jobs.push(Job::new(format!("{cmd}: output and header"), 0, move |ex| c32_outputs(ex, cmd)));
        }
    }
    for header in [false, true] {
        jobs.push(Job::new(format!("unpack over existing files, header file={header}"), 0, move |ex| c32_unpack(ex, header)));
    }
    jobs.push(Job::new("erase a directory", 0, c32_erase_answers));
    jobs
}

// ---- keys ----

pub fn keys(thorough: bool) -> Vec<Vec<u8>> {
    let mut v: Vec<Vec<u8>> = vec![
        b"k".to_vec(),
        b"secret".to_vec(),
        b"secret\n".to_vec(),
        b"secret\r\n".to_vec(),
        b"\nsecret".to_vec(),
        b"sec\nret\n".to_vec(),
        b" secret ".to_vec(),
        b"\n".to_vec(),
        b" ".to_vec(),
        b"\0".to_vec(),
        b"sec\0ret".to_vec(),
        b"\xff\xfe\x80".to_vec(),
        b"\xef\xbb\xbfsecret".to_vec(),
        "p\u{e4}ssw\u{f6}rt".as_bytes().to_vec(),
        "pa\u{308}sswort".as_bytes().to_vec(),
        b"-".to_vec(),
        bytes(3, 32),
        bytes(4, 4097),
    ];
    let big: &[usize] = if thorough { &[31, 33, 64, 255, 256, 1023, 1024, 4095, 4096, 8191, 8192, 8193, 65536, 100_000, BLOCK + 1] } else { &[8192, 100_000] };
    v.extend(big.iter().map(|n| bytes(*n as u64, *n)));
    v
}

pub const CMDS: [&str; 4] = ["encrypt", "decrypt", "pack", "unpack"];

/// What the command works on, sealed by this key
pub fn key_input(w: &World, cmd: &str, key: &[u8]) {
    match cmd {
        "encrypt" => {
            w.file("in", b"the plaintext");
        }
        "decrypt" => {
            w.file("in", &make(5, Alg::XChaCha, Mode::Stream, &[(key.to_vec(), Kdf::B5)], b"the plaintext", 3).file());
        }
        "pack" => {
            put_d(w, "in");
        }
        _ => {
            let z = scen::archive(&entries(), false);
            w.file("in", &make(5, Alg::XChaCha, Mode::Stream, &[(key.to_vec(), Kdf::B5)], &z, 3).file());
        }
    }
}

/// The command did its work with this key.
pub fn key_used(w: &World, cmd: &str, key: &[u8], d: &Done) -> Res<()> {
    ensure!(d.ok(), "{cmd} failed: {}", d.short());
    match cmd {
        "decrypt" => ensure!(w.get("out").as_deref() == Some(b"the plaintext"), "decrypted to something else"),
        "unpack" => unpacked(w, "out")?,
        _ => {
            if let Err(e) = open(None, &w.get("out").unwrap_or_default(), key) {
                viol!("{cmd}: the output can't be opened by the key that was given: {e}: {}", d.short());
            }
        }
    }
    Ok(())
}

pub fn not_shown(key: &[u8], d: &Done, generated: bool) -> Res<()> {
    if key.len() >= 6 && !generated {
        let k = String::from_utf8_lossy(key).trim().to_string();
        ensure!(k.len() < 6 || !(d.out.contains(&k) || d.err.contains(&k) || d.tty.contains(&k)), "the key is shown: {}", d.short());
    }
    Ok(())
}

/// Every content, by every way to give it
pub fn c34_content(ex: &Ex, cmd: &str, thorough: bool) -> Res {
    let keys = keys(thorough);
    let key = &keys[ex.pick("key", keys.len() as u32) as usize];
    let nul = key.contains(&0);
    let text = std::str::from_utf8(key).is_ok();
    let way = *one(ex, "way", &["-k key", "--keyfile key", "--keyfile=key", "-kkey", "-k ./-", "link", "-k -", "--keyfile -", "--keyfile=-", "env", "tty"]);
    let force = ex.pick("force", 2) == 1;
    let first = ex.pick("options first", 2) == 1;
    let mut w = World::new();
    key_input(&w, cmd, key);
    let mut opts = split(&[way]);
    let mut r = Run::default();
    match way {
        "env" => {
            if nul || !text || key.len() > 120_000 {
                return Ok("no such variable".into());
            }
            opts.clear();
            r.env.push(("VOLARIS_KEY".into(), std::ffi::OsStr::from_bytes(key).to_os_string()));
        }
        "tty" => {
            if !text || key.len() > 1000 || key.iter().any(|b| *b < 32) {
                return Ok("can't be typed".into());
            }
            opts.clear();
            let mut t = key.clone();
            t.push(b'\n');
            r.tty = Some(if ["encrypt", "pack"].contains(&cmd) { [&t[..], &t].concat() } else { t });
        }
        "-k -" | "--keyfile -" | "--keyfile=-" => r.stdin = Some(key.clone()),
        "-k ./-" => {
            w.file("-", key);
            r.stdin = Some(b"not this".to_vec());
        }
        "link" => {
            w.file("dir/key", key).link("key", "dir/key");
            opts = split(&["-k key"]);
        }
        _ => {
            w.file("key", key);
        }
    }
    if force {
        opts.push("-f".into());
    }
    let files = ["in".to_string(), "out".to_string()];
    r.args = std::iter::once(cmd.to_string()).chain(if first && cmd != "pack" { opts.iter().chain(&files).cloned().collect::<Vec<_>>() } else { files.iter().chain(&opts).cloned().collect() }).collect();
    w.start();
    let d = w.run(&r);
    d.judge()?;
    let said = |v: Viol| Viol { msg: format!("{way}, key of {} bytes {:?}: {}", key.len(), String::from_utf8_lossy(&key[..key.len().min(20)]), v.msg), ..v };
    key_used(&w, cmd, key, &d).map_err(said)?;
    not_shown(key, &d, false)?;
    ensure!(passphrases(&d.out).is_empty(), "a passphrase was generated: {}", d.short());
    for (k, (a, b)) in diff(&w.before, &w.tree()) {
        ensure!(k.starts_with("w/out"), "{k} changed from {a:?} to {b:?}");
    }
    Ok(format!("{way} {}", key.len()))
}

/// A key that differs a little doesn't open it.
pub fn c34_exact(ex: &Ex, cmd: &str) -> Res {
    let keys = keys(false);
    let key = &keys[ex.pick("key", keys.len() as u32) as usize];
    let mut near: Vec<Vec<u8>> = vec![[&key[..], b"\n"].concat(), [&key[..], b"\0"].concat(), [&key[..], b" "].concat(), [b" ", &key[..]].concat(), [&key[..], &key[..]].concat(), key[..key.len() - 1].to_vec(), key[1..].to_vec()];
    near.push(String::from_utf8_lossy(key).trim().as_bytes().to_vec());
    near.push(String::from_utf8_lossy(key).to_lowercase().into_bytes());
    near.push(key.iter().map(u8::to_ascii_uppercase).collect());
    near.push(key.split(|b| *b == b'\n').next().unwrap().to_vec());
    near.push(key.split(|b| *b == 0).next().unwrap().to_vec());
    near.push(key[..key.len().min(4096)].to_vec());
    near.push(key[..key.len().min(8192)].to_vec());
    near.push(key[..key.len().min(64)].to_vec());
    let n = near[ex.pick("other key", near.len() as u32) as usize].clone();
    if &n == key {
        return Ok("the same".into());
    }
    let stdin = ex.pick("by standard input", 2) == 1;
    let mut w = World::new();
    key_input(&w, cmd, key);
    w.file("key", &n);
    w.start();
    let mut r = run(&[cmd, "in", "out", "-k", if stdin { "-" } else { "key" }]);
    if stdin {
        r = r.stdin(&n);
    }
    let d = w.run(&r);
    d.judge()?;
    ensure!(!d.ok(), "{cmd}: sealed by {:?}, opened by {:?}", String::from_utf8_lossy(&key[..key.len().min(30)]), String::from_utf8_lossy(&n[..n.len().min(30)]));
    ensure!(w.get("out").is_none_or(|o| o.is_empty()), "a wrong key gave output");
    Ok(format!("{} {}", key.len(), n.len()))
}

/// Which of the sources that are there is used
pub fn c34_order(ex: &Ex, cmd: &str) -> Res {
    let enc = ["encrypt", "pack"].contains(&cmd);
    let file = *one(ex, "keyfile", &["", "-k key", "-k -", "-k none", "-k empty"]);
    let env = *one(ex, "environment", &["none", "set", "empty", "not unicode"]);
    let auto = if enc { *one(ex, "auto", &["", "--auto", "--auto=4"]) } else { "" };
    let tty = *one(ex, "terminal", &["none", "typed", "nothing"]);
    let there = ex.pick("output is there", 2) == 1;
    let force = if there { ex.pick("force", 2) == 1 } else { false };
    let mut w = World::new();
    let want: Option<&[u8]> = match (file, env, auto, tty) {
        (f, _, a, _) if !f.is_empty() && !a.is_empty() => None,
        ("-k key", ..) => Some(b"from the file"),
        ("-k -", ..) => Some(b"from the input"),
        ("", "set", ..) => Some(b"from the environment"),
        ("", "none", "", "typed") => Some(b"typed"),
        ("", "none", a, _) if !a.is_empty() => Some(b"<generated>"),
        _ => None,
    };
    key_input(&w, cmd, want.unwrap_or(b"x"));
    w.file("key", b"from the file").file("empty", b"");
    if there {
        if cmd == "unpack" {
            w.file("out/t/a", b"precious");
        } else {
            w.file("out", b"precious");
        }
    }
    w.start();
    let mut a = vec![cmd.to_string(), "in".into(), "out".into()];
    a.extend(split(&[file, auto, if force { "-f" } else { "" }]));
    let mut r = Run { args: a, ..Run::default() };
    match env {
        "set" => r.env.push(("VOLARIS_KEY".into(), "from the environment".into())),
        "empty" => r.env.push(("VOLARIS_KEY".into(), "".into())),
        "not unicode" => r.env.push(("VOLARIS_KEY".into(), std::ffi::OsStr::from_bytes(b"from\xffthe").to_os_string())),
        _ => {}
    }
    // the question about the output is answered first
    let mut input = if there && !force && cmd != "unpack" { b"y\n".to_vec() } else { vec![] };
    input.extend_from_slice(b"from the input");
    if there && !force && cmd == "unpack" {
        // the key is all of the input, so that nobody answers later
        if file != "-k -" {
            input = b"y\ny\ny\n".to_vec();
        } else {
            return Ok("nobody to ask".into());
        }
    }
    r.stdin = Some(input);
    match tty {
        "typed" => r.tty = Some(b"typed\ntyped\n".to_vec()),
        "nothing" => r.tty = Some(b"\x04".to_vec()),
        _ => {}
    }
    let d = w.run(&r);
    d.judge()?;
    match want {
        None => {
            ensure!(!d.ok(), "there is no key, but it claims success: {}", d.short());
            unchanged(&w, &d, "there is no key")?;
            ensure!(passphrases(&d.out).is_empty(), "a passphrase was generated: {}", d.short());
        }
        Some(b"<generated>") => {
            let p = generated(if auto == "--auto" { "auto" } else { "auto=4" }, &d);
            let p = match p {
                Ok(p) => p,
                Err(_) if auto == "--auto=4" => passphrases(&d.out).pop().unwrap_or_default().into_bytes(),
                Err(v) => return Err(v),
            };
            ensure!(auto == "--auto" || p.split(|b| *b == b'-').count() == 4, "a passphrase of 4 words: {}", d.short());
            key_used(&w, cmd, &p, &d)?;
        }
        Some(k) => {
            let said = |v: Viol| Viol { msg: format!("{file} env={env} {auto} tty={tty}: {}", v.msg), ..v };
            key_used(&w, cmd, k, &d).map_err(said)?;
            ensure!(passphrases(&d.out).is_empty(), "a passphrase was generated: {}", d.short());
            not_shown(k, &d, k == b"typed")?;
        }
    }
    Ok(format!("{file} {env} {auto} {tty} {there} {force}"))
}

/// What is typed at the prompts
pub fn c34_prompt(ex: &Ex, cmd: &str) -> Res {
    let enc = ["encrypt", "pack"].contains(&cmd);
    let lines: &[&str] = &["secret\n", "other\n", "\n", " secret \n", "p\u{e4}ss\n", "-\n", "secret\x7f\x7f\n", ""];
    let mut typed = vec![];
    let mut said: Vec<String> = vec![];
    for _ in 0..if enc { 4 } else { 1 } {
        let l = *one(ex, "line", lines);
        if l.is_empty() {
            break;
        }
        typed.extend_from_slice(l.as_bytes());
        // (erasing is up to the terminal)
        said.push(match l {
            "secret\x7f\x7f\n" => "secr".into(),
            l => l[..l.len() - 1].into(),
        });
    }
    // at the end, the terminal is at its end
    typed.push(4);
    let key: Option<String> = if enc { said.chunks(2).find(|c| c.len() == 2 && c[0] == c[1] && !c[0].is_empty()).map(|c| c[0].clone()) } else { said.first().filter(|k| !k.is_empty()).cloned() };
    let there = ex.pick("output is there", 2) == 1;
    let mut w = World::new();
    key_input(&w, cmd, key.as_ref().map_or(b"x", |k| k.as_bytes()));
    if there {
        w.file(if cmd == "unpack" { "out/t/a" } else { "out" }, b"precious");
    }
    w.start();
    let d = w.run(&run(&[cmd, "in", "out"]).stdin(b"y\ny\ny\ny\n").tty(&typed));
    d.judge()?;
    match &key {
        Some(k) => {
            key_used(&w, cmd, k.as_bytes(), &d).map_err(|v| Viol { msg: format!("typed {:?}: {}", String::from_utf8_lossy(&typed), v.msg), ..v })?;
            ensure!(!d.out.contains("secret") && !d.tty.contains("secret"), "the key is shown: {} {:?}", d.short(), d.tty);
        }
        None => {
            ensure!(!d.ok(), "typed {:?}, but it claims success: {}", String::from_utf8_lossy(&typed), d.short());
            unchanged(&w, &d, "there is no key")?;
        }
    }
    Ok(format!("{said:?} {there}"))
}

/// What is typed isn't shown.
pub fn c34_hidden(ex: &Ex) -> Res {
    let cmd = *one(ex, "command", &["decrypt", "unpack"]);
    let mut w = World::new();
    key_input(&w, cmd, b"typed in secret");
    w.start();
    let mut r = run(&[cmd, "in", "out"]).tty(b"typed in secret\n");
    r.echo = true;
    let d = w.run(&r);
    d.judge()?;
    key_used(&w, cmd, b"typed in secret", &d)?;
    ensure!(!d.tty.contains("secret") && !d.out.contains("secret"), "the password is shown: {:?} {}", d.tty, d.short());
    Ok(cmd.into())
}

/// Keyfiles that can't be used
pub fn c34_bad(ex: &Ex, cmd: &str) -> Res {
    let what = *one(ex, "keyfile", &["missing", "directory", "empty", "unreadable", "dangling", "loop", "below a file", "empty input", "closed", "read error", "read error later"]);
    let there = ex.pick("output is there", 2) == 1;
    let h = if ["encrypt", "pack"].contains(&cmd) { *one(ex, "header", &["", "--header=h"]) } else { "" };
    let flags = *one(ex, "flags", &["", "-f", "-f --erase"]);
    let mut w = World::new();
    key_input(&w, cmd, b"x");
    if there {
        w.file(if cmd == "unpack" { "out/t/a" } else { "out" }, b"precious");
        w.file("h", b"precious");
    }
    let mut fault = None;
    let k = match what {
        "missing" => "none",
        "below a file" => "other/key",
        "empty input" => "-",
        _ => "key",
    };
    w.file("other", b"x");
    match what {
        "directory" => {
            w.mkdir("key");
        }
        "empty" => {
            w.file("key", b"");
        }
        "unreadable" => {
            w.file("key", b"x");
            use std::os::unix::fs::PermissionsExt;
            std::fs::set_permissions(w.path("key"), std::fs::Permissions::from_mode(0)).unwrap();
        }
        "dangling" => {
            w.link("key", "nowhere");
        }
        "loop" => {
            w.link("key", "key");
        }
        "read error" => {
            w.file("key", b"x");
            fault = Some(0);
        }
        "read error later" => {
            w.file("key", &bytes(1, 100_000));
            fault = Some(2);
        }
        _ => {}
    }
    w.start();
    let mut r = Run { args: [vec![cmd.to_string(), "in".into(), "out".into(), "-k".into(), k.into()], split(&[h, flags])].concat(), ..Run::default() };
    if flags.is_empty() && k != "-" {
        r = r.stdin(b"y\ny\n");
    } else if there && flags.is_empty() {
        r = r.stdin(if h.is_empty() && cmd != "unpack" { b"y\n" } else if cmd == "unpack" { b"" } else { b"y\ny\n" });
    }
    if let Some(n) = fault {
        // the reads of the key
        let d = w.run(&Run { log: true, ..r.clone() });
        let reads: Vec<u64> = d.log.iter().filter(|c| c.path == "w/key" && c.kind == "read").map(|c| c.n).collect();
        let Some(at) = reads.get(n) else { return Ok("it is read at once".into()) };
        let at = *at;
        let mut w2 = World::new();
        key_input(&w2, cmd, b"x");
        if there {
            w2.file(if cmd == "unpack" { "out/t/a" } else { "out" }, b"precious");
            w2.file("h", b"precious");
        }
        w2.file("key", &w.get("key").unwrap()).file("other", b"x");
        w2.start();
        w = w2;
        r = r.fault(at, "err:5");
    }
    let d = w.run(&r);
    d.judge()?;
    ensure!(!d.ok(), "the keyfile is {what}, but it claims success: {}", d.short());
    unchanged(&w, &d, &format!("the keyfile is {what}"))?;
    Ok(format!("{what} {there} {h} {flags}"))
}

/// A generated passphrase opens the file it was shown for.
pub fn c34_auto(ex: &Ex, cmd: &str) -> Res {
    let auto = *one(ex, "words", &["--auto", "--auto=1", "--auto=2", "--auto=7", "--auto=12", "--auto=50", "--auto=0", "--auto=-1", "--auto=x", "--auto=", "--auto=99999999999"]);
    let hash = *one(ex, "hash", &["", "-H"]);
    let h = *one(ex, "header", &["", "--header=h"]);
    let argon = *one(ex, "argon", &["", "--argon"]);
    let there = ex.pick("output is there", 2) == 1;
    let mut w = World::new();
    key_input(&w, cmd, b"x");
    if there {
        w.file("out", b"precious");
    }
    w.start();
    let r = args(0, cmd, &["in", "out"], &split(&[auto, hash, h, argon])).stdin(b"y\n");
    let d = w.run(&r);
    d.judge()?;
    let p = passphrases(&d.out);
    if !d.ok() {
        ensure!(["--auto=0", "--auto=-1", "--auto=", "--auto=x", "--auto=99999999999"].contains(&auto), "{auto} failed: {}", d.short());
        unchanged(&w, &d, "it failed")?;
        return Ok(format!("{auto} refused"));
    }
    ensure!(p.len() == 1, "{} passphrases: {}", p.len(), d.short());
    let words = p[0].split('-').count();
    let want = match auto {
        "--auto=1" => 1,
        "--auto=2" => 2,
        "--auto=12" => 12,
        "--auto=50" => 50,
        "--auto=0" | "--auto=-1" => viol!("{auto} succeeded: {}", d.short()),
        _ => 7,
    };
    ensure!(words == want, "{words} words instead of {want}: {}", p[0]);
    let hb = w.get("h");
    if let Err(e) = open(hb.as_deref(), &w.get("out").unwrap_or_default(), p[0].as_bytes()) {
        viol!("the passphrase that was shown doesn't open the output: {e}: {}", d.short());
    }
    // again, another one
    let w2 = World::new();
    key_input(&w2, cmd, b"x");
    let d2 = w2.run(&r);
    ensure!(words == 1 || passphrases(&d2.out) != p, "the same passphrase was generated again: {p:?}");
    // and the command itself opens it
    let back = match cmd {
        "encrypt" => vec!["decrypt", "out", "back"],
        _ => vec!["unpack", "out", "back"],
    };
    w.start();
    let mut r = run(&back).key(&p[0]);
    if !h.is_empty() {
        r.args.push("--header=h".into());
    }
    let d = w.run(&r);
    ensure!(d.ok(), "the passphrase that was shown is refused: {}", d.short());
    Ok(format!("{auto} {hash} {h} {argon} {there}"))
}

pub fn c34(thorough: bool) -> Vec<Job> {
    let mut jobs = vec![Job::new("typing", 0, c34_hidden)];
    for cmd in CMDS {
        jobs.push(Job::new(format!("{cmd}: contents of keys"), 0, move |ex| c34_content(ex, cmd, thorough)));
        jobs.push(Job::new(format!("{cmd}: precedence"), 0, move |ex| c34_order(ex, cmd)));
        jobs.push(Job::new(format!("{cmd}: prompt"), 0, move |ex| c34_prompt(ex, cmd)));
        jobs.push(Job::new(format!("{cmd}: unusable keyfiles"), 0, move |ex| c34_bad(ex, cmd)));
        if ["decrypt", "unpack"].contains(&cmd) {
            jobs.push(Job::new(format!("{cmd}: similar keys"), 0, move |ex| c34_exact(ex, cmd)));
        } else {
            jobs.push(Job::new(format!("{cmd}: generated passphrases"), 0, move |ex| c34_auto(ex, cmd)));
        }
    }
    jobs
}
