//! Scenarios: one operation of the code under test on a model file system, with a judge that says
//! whether its full effect is in place.

use crate::explore::{sut, Ex, Res};
use crate::mfile::MFile;
use crate::mfs::{stream_of, Mfs, Snapshot};
use crate::ops::*;
use crate::p_crypto::check_format;
use crate::refimpl::{bytes, header_len, make, Alg, Hdr, Kdf, Made, Mode, BLOCK};
use crate::{ensure, viol};
use std::cell::RefCell;
use std::path::{Path, PathBuf};
use std::sync::Arc;
use tools::storage::{Entry, Storage};

pub const PW: &[u8] = b"the password";

pub struct Scen {
    pub name: String,
    pub group: Group,
    /// files the operation must leave alone (relative to the working directory)
    pub sources: Vec<String>,
    pub setup: Box<dyn Fn(&Mfs) + Send + Sync>,
    /// Ok(Ok(text)): reported success
    pub run: Box<dyn Fn(&Arc<Mfs>) -> Res<Result<String, String>> + Send + Sync>,
    /// the complete effect of success; called with what `run` returned
    pub judge: Box<dyn Fn(&Mfs, &str, &Snapshot) -> Res<()> + Send + Sync>,
    /// the operation has to fail whatever happens, and must leave everything as it was
    pub must_fail: bool,
    /// number of model calls is large
    pub big: bool,
}

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Group {
    File,
    Erase,
    Pack,
    Unpack,
}

pub fn open(fs: &Mfs, p: &str, write: bool) -> RefCell<MFile> {
    RefCell::new(stream_of(fs, p, write).unwrap_or_else(|| panic!("no {p}")))
}

fn res<E: std::fmt::Display>(r: Result<(), E>) -> Result<String, String> {
    r.map(|()| String::new()).map_err(|e| e.to_string())
}

fn simple(
    name: impl Into<String>,
    sources: &[&str],
    setup: impl Fn(&Mfs) + Send + Sync + 'static,
    run: impl Fn(&Arc<Mfs>) -> Res<Result<String, String>> + Send + Sync + 'static,
    judge: impl Fn(&Mfs, &str, &Snapshot) -> Res<()> + Send + Sync + 'static,
) -> Scen {
    Scen {
        name: name.into(),
        group: Group::File,
        sources: sources.iter().map(|s| s.to_string()).collect(),
        setup: Box::new(setup),
        run: Box::new(run),
        judge: Box::new(judge),
        must_fail: false,
        big: false,
    }
}

fn sample(v: u8, a: Alg, m: Mode, n: usize) -> Made {
    let pws: Vec<(Vec<u8>, Kdf)> = if v == 5 {
        vec![(b"first".to_vec(), Kdf::A3), (PW.to_vec(), Kdf::B5)]
    } else {
        vec![(PW.to_vec(), Kdf::B4)]
    };
    make(v, a, m, &pws, &bytes(n as u64 + 3, n), 17 + u64::from(v))
}

pub fn encrypts(big: bool) -> Vec<Scen> {
    let mut out = vec![];
    let list: &[(u8, Alg, Kdf, usize)] = if big {
        &[(5, Alg::XChaCha, Kdf::B5, BLOCK + 5), (5, Alg::Aes, Kdf::A3, BLOCK), (4, Alg::Deoxys, Kdf::B4, 2 * BLOCK + 1)]
    } else {
        &[(5, Alg::XChaCha, Kdf::B5, 0), (5, Alg::Aes, Kdf::B5, 100), (4, Alg::Deoxys, Kdf::B4, 700)]
    };
    for &(v, a, k, n) in list {
        for detached in [false, true] {
            let mut s = simple(
                format!("encrypt V{v} {a:?} {n} bytes detached={detached}"),
                &["in"],
                move |fs| {
                    fs.put_file("in", &bytes(n as u64, n));
                    fs.put_file("out", b"");
                    fs.put_file("hdr", b"");
                },
                move |fs| {
                    let (i, o, h) = (open(fs, "in", false), open(fs, "out", true), open(fs, "hdr", true));
                    Ok(res(encrypt(&i, &o, detached.then_some(&h), PW, header_type(v, a, Mode::Stream), kdf(k))?))
                },
                move |fs, _, _| {
                    let (o, h) = (fs.content("out").unwrap_or_default(), fs.content("hdr").unwrap_or_default());
                    check_format(v, a, k, detached, &bytes(n as u64, n), PW, &o, &h)
                },
            );
            s.big = big;
            out.push(s);
        }
    }
    out
}

pub fn decrypts(big: bool) -> Vec<Scen> {
    let mut out = vec![];
    let mut list: Vec<(u8, Alg, Mode, usize)> = vec![];
    if big {
        list.push((5, Alg::XChaCha, Mode::Stream, BLOCK + 5));
        list.push((5, Alg::Aes, Mode::Stream, BLOCK));
        list.push((3, Alg::Aes, Mode::Stream, 2 * BLOCK + 1));
    } else {
        for v in 1..=5 {
            list.push((v, Alg::XChaCha, Mode::Stream, 100));
            list.push((v, Alg::Aes, Mode::Memory, 600));
        }
        list.push((5, Alg::Deoxys, Mode::Stream, 0));
        list.push((5, Alg::Deoxys, Mode::Stream, 1000));
    }
    for (v, a, m, n) in list {
        for (place, how) in ["embedded", "detached", "stripped"].into_iter().enumerate() {
            let made = sample(v, a, m, n);
            let mut s = simple(
                format!("decrypt V{v} {a:?} {m:?} {n} bytes {how}"),
                &["in", "hdr"],
                move |fs| {
                    let data = match place {
                        0 => made.file(),
                        1 => made.payload.clone(),
                        _ => [vec![0; made.header.len()], made.payload.clone()].concat(),
                    };
                    fs.put_file("in", &data);
                    fs.put_file("hdr", &made.header);
                    fs.put_file("out", b"");
                },
                move |fs| {
                    let (i, o, h) = (open(fs, "in", false), open(fs, "out", true), open(fs, "hdr", false));
                    Ok(res(decrypt((place > 0).then_some(&h), &i, &o, PW)?))
                },
                move |fs, _, _| {
                    ensure!(fs.content("out") == Some(bytes(n as u64 + 3, n)), "the decrypted output isn't the plaintext");
                    Ok(())
                },
            );
            s.big = big;
            out.push(s);
        }
    }
    out
}

pub fn hashes(big: bool) -> Vec<Scen> {
    let list: &[usize] = if big { &[BLOCK, BLOCK + 5, 3 * BLOCK] } else { &[0, 1, 100] };
    list.iter()
        .map(|&n| {
            let mut s = simple(
                format!("hash {n} bytes"),
                &["in"],
                move |fs| {
                    fs.put_file("in", &bytes(5, n));
                },
                move |fs| Ok(hash(open(fs, "in", false))?.map_err(|e| e.to_string())),
                move |_, text, _| {
                    ensure!(text == blake3::hash(&bytes(5, n)).to_hex().as_str(), "the digest isn't the content's");
                    Ok(())
                },
            );
            s.big = big;
            s
        })
        .collect()
}

pub fn headers() -> Vec<Scen> {
    let mut out = vec![];
    for v in 3..=5u8 {
        let a = [Alg::XChaCha, Alg::Aes, Alg::Deoxys][v as usize - 3];
        let m = sample(v, a, Mode::Stream, 50);
        let (m1, m2, m3, m4) = (m.file(), m.file(), m.file(), m.header.clone());
        let (h1, f2, f3) = (m.header.clone(), m.file(), m.file());
        let hl = m.header.len();
        out.push(simple(
            format!("header dump V{v}"),
            &["in"],
            move |fs| {
                fs.put_file("in", &m1);
                fs.put_file("out", b"");
            },
            |fs| Ok(res(dump(&open(fs, "in", false), &open(fs, "out", true))?)),
            move |fs, _, _| {
                ensure!(fs.content("out").as_ref() == Some(&h1), "the dumped header isn't the file's");
                Ok(())
            },
        ));
        out.push(simple(
            format!("header strip V{v}"),
            &[],
            move |fs| {
                fs.put_file("in", &m2);
            },
            |fs| Ok(res(strip(&open(fs, "in", true))?)),
            move |fs, _, _| {
                let mut want = f2.clone();
                want[..hl].fill(0);
                ensure!(fs.content("in") == Some(want), "stripping didn't zero exactly the header");
                Ok(())
            },
        ));
        out.push(simple(
            format!("header restore V{v}"),
            &["hdr"],
            move |fs| {
                let mut d = m3.clone();
                d[..hl].fill(0);
                fs.put_file("in", &d);
                fs.put_file("hdr", &m4);
            },
            |fs| Ok(res(restore(&open(fs, "hdr", false), &open(fs, "in", true))?)),
            move |fs, _, _| {
                ensure!(fs.content("in").as_ref() == Some(&f3), "restoring didn't give back the file");
                Ok(())
            },
        ));
    }
    // refusals
    for (what, target) in [
        ("no room", { let mut t = vec![0u8; 500]; t[415] = 1; t }),
        ("too short", vec![0u8; 415]),
        ("empty", vec![]),
        ("another file", bytes(1, 600)),
    ] {
        let h = sample(5, Alg::Aes, Mode::Stream, 9).header;
        let mut s = simple(
            format!("header restore refused: {what}"),
            &["hdr", "in"],
            move |fs| {
                fs.put_file("in", &target);
                fs.put_file("hdr", &h);
            },
            |fs| Ok(res(restore(&open(fs, "hdr", false), &open(fs, "in", true))?)),
            |_, _, _| Ok(()),
        );
        s.must_fail = true;
        out.push(s);
    }
    out
}

fn slots_after(fs: &Mfs, before: &Made, n: usize, opens: &[&[u8]], not: &[&[u8]]) -> Res<()> {
    let f = fs.content("in").unwrap_or_default();
    ensure!(f.len() == before.header.len() + before.payload.len(), "the file's length changed");
    ensure!(f[before.header.len()..] == before.payload[..], "the payload changed");
    let Some(h) = Hdr::parse(&f) else { viol!("the header isn't valid any more") };
    ensure!(h.slots.len() == n, "{} key slots instead of {n}", h.slots.len());
    ensure!((h.alg, h.mode, &h.nonce) == (before.hdr.alg, before.hdr.mode, &before.hdr.nonce), "the static header changed");
    for p in opens {
        ensure!(h.master(p) == Some(before.master), "{:?} doesn't open the file any more", String::from_utf8_lossy(p));
    }
    for p in not {
        ensure!(h.master(p).is_none(), "{:?} still opens the file", String::from_utf8_lossy(p));
    }
    Ok(())
}

pub fn keys() -> Vec<Scen> {
    let mut out = vec![];
    let a = Alg::Aes;
    let ops: Vec<(&str, KeyOp, bool, Box<dyn Fn(&Mfs, &Made) -> Res<()> + Send + Sync>)> = vec![
        ("add", KeyOp::Add { old: PW.to_vec(), new: b"new".to_vec(), kdf: Kdf::A1 }, false, Box::new(|fs, m| slots_after(fs, m, 3, &[PW, b"first", b"new"], &[]))),
        ("change", KeyOp::Change { old: PW.to_vec(), new: b"new".to_vec(), kdf: Kdf::B4 }, false, Box::new(|fs, m| slots_after(fs, m, 2, &[b"first", b"new"], &[PW]))),
        ("change of the first", KeyOp::Change { old: b"first".to_vec(), new: b"new".to_vec(), kdf: Kdf::B4 }, false, Box::new(|fs, m| slots_after(fs, m, 2, &[PW, b"new"], &[b"first"]))),
        ("delete", KeyOp::Delete { old: PW.to_vec() }, false, Box::new(|fs, m| slots_after(fs, m, 1, &[b"first"], &[PW]))),
        ("delete of the first", KeyOp::Delete { old: b"first".to_vec() }, false, Box::new(|fs, m| slots_after(fs, m, 1, &[PW], &[b"first"]))),
        ("verify", KeyOp::Verify { pw: PW.to_vec() }, false, Box::new(|fs, m| slots_after(fs, m, 2, &[PW, b"first"], &[]))),
        ("add with a wrong password", KeyOp::Add { old: b"wrong".to_vec(), new: b"new".to_vec(), kdf: Kdf::A1 }, true, Box::new(|_, _| Ok(()))),
        ("change with a wrong password", KeyOp::Change { old: b"wrong".to_vec(), new: b"new".to_vec(), kdf: Kdf::A1 }, true, Box::new(|_, _| Ok(()))),
        ("delete with a wrong password", KeyOp::Delete { old: b"wrong".to_vec() }, true, Box::new(|_, _| Ok(()))),
        ("verify with a wrong password", KeyOp::Verify { pw: b"wrong".to_vec() }, true, Box::new(|_, _| Ok(()))),
    ];
    for (name, op, must_fail, judge) in ops {
        let sources: &[&str] = if name.starts_with("verify") || must_fail { &["in"] } else { &[] };
        let mut s = simple(
            format!("key {name}"),
            sources,
            move |fs| {
                fs.put_file("in", &sample(5, a, Mode::Stream, 40).file());
            },
            move |fs| Ok(res(op.run(&open(fs, "in", true))?)),
            move |fs, _, _| judge(fs, &sample(5, a, Mode::Stream, 40)),
        );
        s.must_fail = must_fail;
        out.push(s);
    }
    // no free slot, and a header version without slots
    for (name, v) in [("full", 5u8), ("V4", 4), ("V3", 3)] {
        for op in ["add", "change", "delete", "verify"] {
            if v == 5 && op != "add" {
                continue;
            }
            let made = if v == 5 {
                let pws: Vec<_> = (0..4).map(|i| (format!("p{i}").into_bytes(), Kdf::B5)).collect();
                make(5, a, Mode::Stream, &pws, b"text", 5)
            } else {
                make(v, a, Mode::Stream, &[(b"p2".to_vec(), Kdf::B4)], b"text", 5)
            };
            let o = match op {
                "add" => KeyOp::Add { old: b"p2".to_vec(), new: b"n".to_vec(), kdf: Kdf::B5 },
                "change" => KeyOp::Change { old: b"p2".to_vec(), new: b"n".to_vec(), kdf: Kdf::B5 },
                "delete" => KeyOp::Delete { old: b"p2".to_vec() },
                _ => KeyOp::Verify { pw: b"p2".to_vec() },
            };
            let mut s = simple(
                format!("key {op} refused: {name}"),
                &["in"],
                move |fs| {
                    fs.put_file("in", &made.file());
                },
                move |fs| Ok(res(o.run(&open(fs, "in", true))?)),
                |_, _, _| Ok(()),
            );
            s.must_fail = true;
            out.push(s);
        }
    }
    out
}

pub fn overwrites() -> Vec<Scen> {
    let mut out = vec![];
    for (n, passes) in [(0usize, 1i32), (1, 1), (512, 0), (513, 2), (1500, 1)] {
        out.push(simple(
            format!("overwrite {n} bytes, {passes} passes"),
            &[],
            move |fs| {
                fs.put_file("in", &bytes(7, n));
            },
            move |fs| Ok(res(overwrite(&open(fs, "in", true), n, passes)?)),
            move |fs, _, _| {
                ensure!(fs.content("in") == Some(vec![0; n]), "the file isn't zeros over its length");
                Ok(())
            },
        ));
    }
    out
}

pub fn erase(fs: &Arc<Mfs>, p: &str, passes: i32) -> Res<Result<String, String>> {
    let r = sut("erase", || tools::erase::execute(fs.clone(), tools::erase::Request { path: p, passes }))?;
    Ok(res(r))
}

pub fn erase_dir(fs: &Arc<Mfs>, p: &str, passes: i32) -> Res<Result<String, String>> {
    let r = sut("erase_dir", || {
        let entry = match fs.read_file(p) {
            Ok(e) => e,
            Err(e) => return Err(e.to_string()),
        };
        tools::erase_dir::execute(fs.clone(), tools::erase_dir::Request { entry, passes }).map_err(|e| e.to_string())
    })?;
    Ok(r.map(|()| String::new()))
}

pub fn erases() -> Vec<Scen> {
    let mut out = vec![];
    for (n, passes) in [(0usize, 1i32), (700, 0), (700, 1), (1024, 3)] {
        let mut s = simple(
            format!("erase {n} bytes, {passes} passes"),
            &["other"],
            move |fs| {
                fs.put_file("d/in", &bytes(7, n));
                fs.put_file("other", b"other");
            },
            move |fs| erase(fs, "d/in", passes),
            |fs, _, before| {
                let mut want = before.clone();
                want.remove("/w/d/in");
                ensure!(fs.snapshot("/") == want, "success was reported but the files are {:?}", fs.snapshot("/").keys().collect::<Vec<_>>());
                Ok(())
            },
        );
        s.group = Group::Erase;
        out.push(s);
    }
    let mut s = simple(
        "erase a directory",
        &["other"],
        |fs| {
            fs.put_file("d/a", &bytes(7, 600));
            fs.put_file("d/.h/b", &bytes(8, 10));
            fs.put_dir("d/e");
            fs.put_file("d/z", b"");
            fs.put_file("other", b"other");
        },
        |fs| erase_dir(fs, "d", 1),
        |fs, _, before| {
            let want: Snapshot = before.clone().into_iter().filter(|(p, _)| p != "/w/d" && !p.starts_with("/w/d/")).collect();
            ensure!(fs.snapshot("/") == want, "success was reported but the files are {:?}", fs.snapshot("/").keys().collect::<Vec<_>>());
            Ok(())
        },
    );
    s.group = Group::Erase;
    out.push(s);
    for target in ["missing", "d"] {
        let mut s = simple(
            format!("erase refused: {target}"),
            &["d/in"],
            |fs| {
                fs.put_file("d/in", b"1");
            },
            move |fs| erase(fs, target, 1),
            |_, _, _| Ok(()),
        );
        s.group = Group::Erase;
        s.must_fail = true;
        out.push(s);
    }
    out
}

/// A tree: path -> content, None for directories
pub type Tree = Vec<(&'static str, Option<Vec<u8>>)>;

pub fn small_tree() -> Tree {
    vec![
        ("d", None),
        ("d/a.txt", Some(b"alpha".to_vec())),
        ("d/.hidden", Some(b"h".to_vec())),
        ("d/e", None),
        ("d/s", None),
        ("d/s/t", None),
        ("d/s/t/b.bin", Some(bytes(4, 3000))),
        ("d/s/zero", Some(vec![])),
    ]
}

pub fn put_tree(fs: &Mfs, t: &Tree) {
    for (p, c) in t {
        match c {
            Some(c) => {
                fs.put_file(p, c);
            }
            None => fs.put_dir(p),
        }
    }
}

/// Everything below the given directories, the way the command collects it.
pub fn collect(fs: &Arc<Mfs>, roots: &[&str]) -> Result<Vec<Entry<MFile>>, String> {
    let mut v = vec![];
    for r in roots {
        let e = fs.read_file(r).map_err(|e| e.to_string())?;
        v.extend(fs.read_dir(&e).map_err(|e| e.to_string())?);
    }
    Ok(v)
}

pub fn pack(fs: &Arc<Mfs>, roots: &[&str], out: &str, hdr: Option<&str>, zstd: bool, a: Alg, k: Kdf, password: &[u8]) -> Res<Result<String, String>> {
    let entries = match collect(fs, roots) {
        Ok(e) => e,
        Err(e) => return Ok(Err(e)),
    };
    let w = open(fs, out, true);
    let h = hdr.map(|h| open(fs, h, true));
    let r = sut("pack", || {
        tools::pack::execute(
            fs.clone(),
            tools::pack::Request {
                writer: &w,
                compress_files: entries,
                compression_method: if zstd { zip::CompressionMethod::Zstd } else { zip::CompressionMethod::Stored },
                header_writer: h.as_ref(),
                raw_key: pw(password),
                header_type: header_type(5, a, Mode::Stream),
                hashing_algorithm: kdf(k),
            },
        )
    })?;
    Ok(res(r))
}

pub fn unpack(fs: &Arc<Mfs>, input: &str, hdr: Option<&str>, dir: &str, password: &[u8]) -> Res<Result<String, String>> {
    unpack_filtered(fs, input, hdr, dir, password, None)
}

pub fn unpack_filtered(
    fs: &Arc<Mfs>,
    input: &str,
    hdr: Option<&str>,
    dir: &str,
    password: &[u8],
    filter: Option<Box<dyn Fn(PathBuf) -> bool>>,
) -> Res<Result<String, String>> {
    let r = open(fs, input, false);
    let h = hdr.map(|h| open(fs, h, false));
    let r = sut("unpack", || {
        tools::unpack::execute(
            fs.clone(),
            tools::unpack::Request {
                reader: &r,
                header_reader: h.as_ref(),
                raw_key: pw(password),
                output_dir_path: dir.into(),
                on_decrypted_header: None,
                on_archive_info: None,
                on_zip_file: filter,
            },
        )
    })?;
    Ok(res(r))
}

/// A packed file, opened by the reference implementation: name -> content (None: directory)
pub fn open_packed(header: Option<&[u8]>, file: &[u8], password: &[u8]) -> Res<Vec<(String, Option<Vec<u8>>)>> {
    let (hb, payload) = match header {
        Some(h) => (h, file),
        None => {
            ensure!(file.len() >= header_len(5), "the output is shorter than a header");
            file.split_at(header_len(5))
        }
    };
    let Some(h) = Hdr::parse(hb) else { viol!("the output has no valid header") };
    let Some(m) = h.master(password) else { viol!("the password doesn't open the output") };
    let Some(z) = h.open_payload(&m, &h.aad(), payload) else { viol!("the output's payload is incomplete") };
    let Ok(mut a) = zip::ZipArchive::new(std::io::Cursor::new(z)) else { viol!("the output isn't an archive") };
    let mut v = vec![];
    for i in 0..a.len() {
        let Ok(mut f) = a.by_index(i) else { viol!("entry {i} of the archive is unreadable") };
        let name = f.name().to_string();
        if name.ends_with('/') {
            v.push((name, None));
        } else {
            let mut d = vec![];
            if let Err(e) = std::io::Read::read_to_end(&mut f, &mut d) {
                viol!("entry {name} of the archive is unreadable: {e}");
            }
            v.push((name, Some(d)));
        }
    }
    Ok(v)
}

pub fn tree_of(t: &Tree) -> Vec<(String, Option<Vec<u8>>)> {
    let mut v: Vec<_> = t.iter().map(|(p, c)| (if c.is_some() { p.to_string() } else { format!("{p}/") }, c.clone())).collect();
    v.sort();
    v
}

/// No temporary file is left.
pub fn no_temp(fs: &Mfs) -> Res<()> {
    let t = std::env::temp_dir();
    let left: Vec<_> = fs.snapshot(&t).into_keys().filter(|p| Path::new(p) != t).collect();
    ensure!(left.is_empty(), "temporary files are left: {left:?}");
    Ok(())
}

/// An encrypted archive made by the reference implementation
pub fn archive(entries: &[(&str, Option<&[u8]>)], zstd: bool) -> Vec<u8> {
    use std::io::Write;
    let mut w = zip::ZipWriter::new(std::io::Cursor::new(vec![]));
    let o: zip::write::FileOptions<'_, ()> =
        zip::write::FileOptions::default().compression_method(if zstd { zip::CompressionMethod::Zstd } else { zip::CompressionMethod::Stored });
    for (n, c) in entries {
        match c {
            Some(c) => {
                w.start_file(*n, o).unwrap();
                w.write_all(c).unwrap();
            }
            None => w.add_directory(*n, o).unwrap(),
        }
    }
    w.finish().unwrap().into_inner()
}

pub fn sealed(zip: &[u8]) -> Made {
    make(5, Alg::XChaCha, Mode::Stream, &[(PW.to_vec(), Kdf::B5)], zip, 99)
}

pub fn packs(big: bool) -> Vec<Scen> {
    let mut out = vec![];
    for (zstd, detached) in [(false, false), (true, false), (false, true), (true, true)] {
        let tree = || -> Tree {
            let mut t = small_tree();
            if true {
                t.push(("x", None));
                t.push(("x/y", Some(b"why".to_vec())));
            }
            t
        };
        let tree = move || {
            let mut t = tree();
            if big {
                t.push(("x/large", Some(bytes(77, BLOCK + 70_000))));
            }
            t
        };
        let mut s = simple(
            format!("pack zstd={zstd} detached={detached} big={big}"),
            &["d", "x"],
            move |fs| {
                put_tree(fs, &tree());
                fs.put_file("out", b"");
                fs.put_file("hdr", b"");
            },
            move |fs| pack(fs, &["d", "x"], "out", detached.then_some("hdr"), zstd, Alg::XChaCha, Kdf::B5, PW),
            move |fs, _, _| {
                let h = fs.content("hdr").unwrap_or_default();
                let mut got = open_packed(detached.then_some(&h[..]), &fs.content("out").unwrap_or_default(), PW)?;
                got.sort();
                let want = tree_of(&tree());
                ensure!(got == want, "the archive has {:?}", got.iter().map(|(n, c)| (n, c.as_ref().map(Vec::len))).collect::<Vec<_>>());
                no_temp(fs)
            },
        );
        s.group = Group::Pack;
        s.big = big;
        out.push(s);
    }
    out
}

pub fn unpacks(big: bool) -> Vec<Scen> {
    let mut out = vec![];
    for (zstd, detached, existing) in [(false, false, false), (true, false, true), (true, true, false), (false, true, true)] {
        let tree = move || {
            let mut t = small_tree();
            if big {
                t.push(("d/large", Some(bytes(77, BLOCK + 70_000))));
            }
            t
        };
        let mut s = simple(
            format!("unpack zstd={zstd} detached={detached} existing={existing} big={big}"),
            &["in", "hdr"],
            move |fs| {
                let t = tree();
                let entries: Vec<(&str, Option<&[u8]>)> = t.iter().map(|(p, c)| (*p, c.as_deref())).collect();
                let m = sealed(&archive(&entries, zstd));
                fs.put_file("in", &if detached { m.payload.clone() } else { m.file() });
                fs.put_file("hdr", &m.header);
                if existing {
                    fs.put_file("to/d/a.txt", b"what was here before is longer");
                    fs.put_file("to/d/unrelated", b"unrelated");
                }
            },
            move |fs| unpack(fs, "in", detached.then_some("hdr"), "to", PW),
            move |fs, _, before| {
                let mut want = before.clone();
                want.insert("/w/to".into(), None);
                for (p, c) in tree() {
                    want.insert(format!("/w/to/{p}"), c);
                }
                let got = fs.snapshot("/");
                for (p, c) in &want {
                    ensure!(got.get(p) == Some(c), "success was reported but {p} is missing or incomplete");
                }
                ensure!(got.len() == want.len(), "unexpected files: {:?}", got.keys().filter(|k| !want.contains_key(*k)).collect::<Vec<_>>());
                no_temp(fs)
            },
        );
        s.group = Group::Unpack;
        s.big = big;
        out.push(s);
    }
    out
}

pub fn all_small() -> Vec<Scen> {
    let mut v = encrypts(false);
    v.extend(decrypts(false));
    v.extend(hashes(false));
    v.extend(headers());
    v.extend(keys());
    v.extend(overwrites());
    v.extend(erases());
    v.extend(packs(false));
    v.extend(unpacks(false));
    v
}

pub fn all_big() -> Vec<Scen> {
    let mut v = encrypts(true);
    v.extend(decrypts(true));
    v.extend(hashes(true));
    v.extend(packs(true));
    v.extend(unpacks(true));
    v
}

/// Runs a scenario; threads of the code under test run one after the other.
pub fn execute(s: &Scen, ex: &Ex, configure: impl FnOnce(&mut Mfs)) -> Res<(Arc<Mfs>, Snapshot, Result<String, String>)> {
    let mut fs = Mfs::new(ex);
    (s.setup)(&fs);
    configure(&mut fs);
    let fs = Arc::new(fs);
    let before = fs.snapshot("/");
    let run = crate::sched::Run::start_free(ex);
    if fs.faults {
        run.fail_spawn();
    }
    let r = (s.run)(&fs);
    run.drain();
    drop(run);
    Ok((fs, before, r?))
}
