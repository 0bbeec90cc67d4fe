//! C28: operations, and commands, that run at the same time.

use crate::cli::{run, Done, Node, Tree, World};
use crate::explore::{count, Ex, Job, Res, Viol};
use crate::mfs::{Mfs, Snapshot};
use crate::ops::*;
use crate::p_cli;
use crate::refimpl::{bytes, make, Alg, Kdf, Mode};
use crate::osx::Os;
use crate::p_fs::{put_real, real_tree};
use crate::scen::{self, archive, no_temp, sealed, PW};
use crate::sched::Run;
use crate::{ensure, viol};
use crate::explore::sut;
use crate::p_fs::Dir;
use std::cell::RefCell;
use std::collections::BTreeMap;
use std::io::{Read, Seek, Write};
use std::path::Path;
use std::sync::{Arc, OnceLock};
use tools::storage::{FileStorage, Storage};

type Want = BTreeMap<String, Option<Vec<u8>>>;

/// What number `i` does; everything without a number in its name is shared.
#[derive(Clone, Copy, Debug, PartialEq, Eq)]
enum Op {
    Pack,
    Unpack,
    /// into a directory that the others unpack into as well
    UnpackShared,
    Encrypt,
    Decrypt,
    Hash,
    Erase,
    EraseDir,
    AddKey,
    Strip,
    /// has to fail: with the wrong password
    WrongKey,
    /// has to fail: a file is where a directory has to be
    Blocked,
}

const OPS: [Op; 12] = [Op::Pack, Op::Unpack, Op::UnpackShared, Op::Encrypt, Op::Decrypt, Op::Hash, Op::Erase, Op::EraseDir, Op::AddKey, Op::Strip, Op::WrongKey, Op::Blocked];

fn own(i: usize, what: &str) -> String {
    format!("{what}{i}")
}

const SHARED: &[(&str, Option<&[u8]>)] = &[("a/", None), ("a/f", Some(b"content of f")), ("g", Some(b""))];

fn parts(i: usize) -> Vec<(String, Option<Vec<u8>>)> {
    vec![("s/".into(), None), ("s/t/".into(), None), (format!("s/f{i}"), Some(bytes(i as u64, 20))), (format!("s/t/g{i}"), Some(vec![i as u8; 5])), (format!("own{i}/"), None)]
}

fn small() -> Vec<(&'static str, Option<Vec<u8>>)> {
    vec![("d", None), ("d/a", Some(b"alpha".to_vec())), ("d/s", None), ("d/s/.b", Some(bytes(4, 40)))]
}

fn plain() -> Vec<u8> {
    bytes(3, 90)
}

fn keyed(i: usize) -> crate::refimpl::Made {
    make(5, Alg::XChaCha, Mode::Stream, &[(PW.to_vec(), Kdf::B5)], &plain(), 40 + i as u64)
}

impl Op {
    /// The files it needs, by name
    fn setup(self, i: usize) -> Want {
        let mut t = Want::new();
        let mut put = |n: String, d: &[u8]| {
            for (k, _) in n.match_indices('/') {
                t.insert(n[..k].into(), None);
            }
            t.insert(n, Some(d.to_vec()));
        };
        match self {
            Op::Pack => {
                for (n, d) in small() {
                    if let Some(d) = d {
                        put(n.into(), &d);
                    }
                }
                put(own(i, "o"), b"");
            }
            Op::Unpack => put("archive".into(), &sealed(&archive(SHARED, false)).file()),
            Op::UnpackShared => {
                let p = parts(i);
                let e: Vec<(&str, Option<&[u8]>)> = p.iter().map(|(n, c)| (n.as_str(), c.as_deref())).collect();
                put(own(i, "part"), &sealed(&archive(&e, false)).file());
            }
            Op::Encrypt => {
                put("in".into(), &plain());
                put(own(i, "e"), b"");
                put(own(i, "h"), b"");
            }
            Op::Decrypt => {
                put("enc".into(), &keyed(9).file());
                put(own(i, "p"), b"");
            }
            Op::Hash => put("in".into(), &plain()),
            Op::Erase => put(own(i, "secret"), b"secret"),
            Op::EraseDir => {
                put(format!("gone{i}/a"), b"secret");
                put(format!("gone{i}/s/b"), b"another");
            }
            Op::WrongKey => put("archive".into(), &sealed(&archive(SHARED, false)).file()),
            Op::Blocked => {
                put("archive".into(), &sealed(&archive(SHARED, false)).file());
                put(format!("blocked{i}/a"), b"a file");
            }
            Op::AddKey | Op::Strip => put(format!("{self:?}{i}"), &keyed(i).file()),
        }
        t
    }

    /// On any kind of storage; the files are below `at`.
    fn run<RW, S>(self, stor: Arc<S>, at: &Path, i: usize) -> Res<Result<String, String>>
    where
        RW: Read + Write + Seek,
        S: Storage<RW> + 'static,
    {
        let none = |()| String::new();
        let r = |n: &str| stor.read_file(at.join(n)).map_err(|e| e.to_string());
        let w = |n: &str| stor.write_file(at.join(n)).map_err(|e| e.to_string());
        let change = |n: &str| stor.open_file(at.join(n)).map_err(|e| e.to_string());
        let header_type = header_type(5, Alg::XChaCha, Mode::Stream);
        let hashing_algorithm = kdf(Kdf::B5);
        let unpack = |from: String, to: String, key: &[u8]| -> Result<String, String> {
            let i = r(&from)?;
            let req = tools::unpack::Request {
                reader: i.try_reader().map_err(|e| e.to_string())?,
                header_reader: None,
                raw_key: pw(key),
                output_dir_path: at.join(to),
                on_decrypted_header: None,
                on_archive_info: None,
                on_zip_file: None,
            };
            tools::unpack::execute(stor.clone(), req).map(none).map_err(|e| e.to_string())
        };
        sut("an operation", || match self {
            Op::Pack => {
                let compress_files = stor.read_dir(&r("d")?).map_err(|e| e.to_string())?;
                let o = w(&own(i, "o"))?;
                let req = tools::pack::Request {
                    writer: o.try_writer().map_err(|e| e.to_string())?,
                    compress_files,
                    compression_method: if i == 1 { zip::CompressionMethod::Zstd } else { zip::CompressionMethod::Stored },
                    header_writer: None,
                    raw_key: pw(PW),
                    header_type,
                    hashing_algorithm,
                };
                tools::pack::execute(stor.clone(), req).map(none).map_err(|e| e.to_string())
            }
            Op::Unpack => unpack("archive".into(), own(i, "to"), PW),
            Op::UnpackShared => unpack(own(i, "part"), "all".into(), PW),
            Op::WrongKey => unpack("archive".into(), own(i, "wrong"), b"another"),
            Op::Blocked => unpack("archive".into(), own(i, "blocked"), PW),
            Op::Encrypt => {
                let (f, e, h) = (r("in")?, w(&own(i, "e"))?, w(&own(i, "h"))?);
                let req = tools::encrypt::Request {
                    reader: f.try_reader().map_err(|e| e.to_string())?,
                    writer: e.try_writer().map_err(|e| e.to_string())?,
                    header_writer: Some(h.try_writer().map_err(|e| e.to_string())?),
                    raw_key: pw(PW),
                    header_type,
                    hashing_algorithm,
                };
                tools::encrypt::execute(req).map(none).map_err(|e| e.to_string())
            }
            Op::Decrypt => {
                let (f, o) = (r("enc")?, w(&own(i, "p"))?);
                let req = tools::decrypt::Request {
                    header_reader: None,
                    reader: f.try_reader().map_err(|e| e.to_string())?,
                    writer: o.try_writer().map_err(|e| e.to_string())?,
                    raw_key: pw(PW),
                    on_decrypted_header: None,
                };
                tools::decrypt::execute(req).map(none).map_err(|e| e.to_string())
            }
            Op::Hash => {
                let f = r("in")?;
                let mut f = f.try_reader().map_err(|e| e.to_string())?.borrow_mut();
                tools::hash::execute(tools::hasher::Blake3Hasher::default(), tools::hash::Request { reader: RefCell::new(&mut *f) }).map_err(|e| e.to_string())
            }
            Op::Erase => tools::erase::execute(stor.clone(), tools::erase::Request { path: at.join(own(i, "secret")), passes: 1 }).map(none).map_err(|e| e.to_string()),
            Op::EraseDir => {
                let entry = r(&own(i, "gone"))?;
                tools::erase_dir::execute(stor.clone(), tools::erase_dir::Request { entry, passes: 1 }).map(none).map_err(|e| e.to_string())
            }
            Op::AddKey => {
                let f = change(&own(i, "AddKey"))?;
                let req = tools::key::add::Request {
                    handle: f.try_writer().map_err(|e| e.to_string())?,
                    raw_key_old: pw(PW),
                    raw_key_new: pw(&[b'n', i as u8]),
                    hash_algorithm: hashing_algorithm,
                };
                tools::key::add::execute(req).map(none).map_err(|e| e.to_string())
            }
            Op::Strip => {
                let f = change(&own(i, "Strip"))?;
                let handle = f.try_writer().map_err(|e| e.to_string())?;
                tools::header::strip::execute(tools::header::strip::Request { handle }).map(none).map_err(|e| e.to_string())
            }
        })
    }

    /// The effect; what it changed is taken out of, or put into, the wanted files.
    fn judge(self, at: &str, got: &Want, i: usize, text: &str, want: &mut Want) -> Res<()> {
        let get = |n: &str| got.get(n).cloned().flatten().unwrap_or_default();
        match self {
            Op::Pack => {
                let o = own(i, "o");
                let mut got = scen::open_packed(None, &get(&o), PW)?;
                for (n, _) in &mut got {
                    *n = n.strip_prefix(at).unwrap_or(n).trim_start_matches('/').to_string();
                }
                got.sort();
                ensure!(got == scen::tree_of(&small()), "the archive {o} has {:?}", got.iter().map(|(n, c)| (n, c.as_ref().map(Vec::len))).collect::<Vec<_>>());
                want.insert(o.clone(), Some(get(&o)));
            }
            Op::Unpack => {
                let to = own(i, "to");
                want.insert(to.clone(), None);
                for (n, c) in SHARED {
                    want.insert(format!("{to}/{}", n.trim_end_matches('/')), c.map(<[u8]>::to_vec));
                }
            }
            Op::UnpackShared => {
                want.insert("all".into(), None);
                for (n, c) in parts(i) {
                    want.insert(format!("all/{}", n.trim_end_matches('/')), c);
                }
            }
            Op::Encrypt => {
                let (e, h) = (own(i, "e"), own(i, "h"));
                match p_cli::open(Some(&get(&h)), &get(&e), PW) {
                    Ok((_, d)) => ensure!(d == plain(), "{e} holds other bytes"),
                    Err(m) => viol!("{e} is useless: {m}"),
                }
                want.insert(e.clone(), Some(get(&e)));
                want.insert(h.clone(), Some(get(&h)));
            }
            Op::Decrypt => {
                want.insert(own(i, "p"), Some(plain()));
            }
            Op::Hash => ensure!(text == blake3::hash(&plain()).to_hex().as_str(), "the digest is another"),
            Op::Erase => {
                want.remove(&own(i, "secret"));
            }
            Op::EraseDir => {
                let d = own(i, "gone");
                want.retain(|k, _| *k != d && !k.starts_with(&format!("{d}/")));
            }
            Op::AddKey => {
                let f = own(i, "AddKey");
                for pw in [PW, &[b'n', i as u8]] {
                    match p_cli::open(None, &get(&f), pw) {
                        Ok((_, d)) => ensure!(d == plain(), "{f} holds other bytes"),
                        Err(m) => viol!("{f} is useless: {m}"),
                    }
                }
                want.insert(f.clone(), Some(get(&f)));
            }
            Op::WrongKey | Op::Blocked => viol!("it succeeded"),
            Op::Strip => {
                let m = keyed(i);
                want.insert(own(i, "Strip"), Some([vec![0; m.header.len()], m.payload].concat()));
            }
        }
        Ok(())
    }
}

/// What all drew must differ.
fn distinct(got: &Want, ops: &[Op]) -> Res<()> {
    let mut seen: BTreeMap<Vec<u8>, usize> = BTreeMap::new();
    for (i, o) in ops.iter().enumerate() {
        let f = match o {
            Op::Pack => got.get(&own(i, "o")),
            Op::Encrypt => got.get(&own(i, "h")),
            _ => continue,
        };
        let f = f.cloned().flatten().unwrap_or_default();
        let Some(h) = crate::refimpl::Hdr::parse(&f[..f.len().min(416)]) else { viol!("no header") };
        for s in [h.nonce.clone(), h.slots[0].salt.to_vec(), h.slots[0].nonce.clone()] {
            if let Some(j) = seen.insert(s.clone(), i) {
                ensure!(j == i, "two operations at the same time drew the same nonce or salt");
            }
        }
    }
    Ok(())
}

fn all_files(ops: &[Op]) -> Want {
    ops.iter().enumerate().flat_map(|(i, o)| o.setup(i)).collect()
}

/// Starts all, and waits for all.
fn start<RW, S>(ex: &Ex, run: Run, ops: &[Op], stor: &Arc<S>, at: &Path) -> Res<(Vec<Res<Result<String, String>>>, u64)>
where
    RW: Read + Write + Seek + 'static,
    S: Storage<RW> + Send + Sync + 'static,
{
    let hs: Vec<_> = ops
        .iter()
        .enumerate()
        .map(|(i, o)| {
            let (stor, o, at) = (stor.clone(), *o, at.to_path_buf());
            std::thread::spawn(move || o.run(stor, &at, i))
        })
        .collect();
    let rs: Vec<_> = hs.into_iter().map(|h| h.join()).collect();
    let working = run.running();
    run.drain();
    let (_, points, switches) = run.stats();
    drop(run);
    ex.close();
    count("points", points);
    // (what fails may leave threads that still have to end)
    ensure!(working == 0 || ops.contains(&Op::Blocked), "{working} threads were still at work at the end");
    let mut v = vec![];
    for r in rs {
        let Ok(r) = r else { viol!("an operation panicked") };
        v.push(r);
    }
    Ok((v, switches))
}

fn judge(at: &str, ops: &[Op], rs: Vec<Res<Result<String, String>>>, mut want: Want, got: &Want) -> Res<()> {
    let told = |i: usize, v: Viol| Viol { msg: format!("{:?} (number {i} of {ops:?}): {}", ops[i], v.msg), ..v };
    for (i, r) in rs.into_iter().enumerate() {
        match r.map_err(|v| told(i, v))? {
            Ok(text) => ops[i].judge(at, got, i, &text, &mut want).map_err(|v| told(i, v))?,
            Err(_) if ops[i] == Op::WrongKey => {}
            // (it may have made the other entries)
            Err(_) if ops[i] == Op::Blocked => {
                let d = format!("{}/", own(i, "blocked"));
                want.extend(got.iter().filter(|(k, _)| k.starts_with(&d) && **k != format!("{d}a")).map(|(k, v)| (k.clone(), v.clone())));
            }
            Err(e) => viol!("{:?} (number {i} of {ops:?}) failed beside the others: {e}", ops[i]),
        }
    }
    distinct(got, ops)?;
    for (k, v) in &want {
        ensure!(got.get(k) == Some(v), "{k} isn't what it is when {ops:?} run one after another");
    }
    for k in got.keys() {
        ensure!(want.contains_key(k), "{k} was made");
    }
    Ok(())
}

fn on_model(ex: &Ex, ops: &[Op]) -> Res {
    let fs = Mfs::new(ex);
    for (k, v) in &all_files(ops) {
        if let Some(d) = v {
            fs.put_file(k, d);
        } else {
            fs.put_dir(k);
        }
    }
    let fs = Arc::new(fs);
    let names = |s: Snapshot| -> Want { s.into_iter().filter_map(|(k, v)| Some((k.strip_prefix("/w/")?.to_string(), v))).collect() };
    let before = fs.snapshot("/");
    let want = names(before.clone());
    let run = Run::start(ex);
    run.delay_bounded();
    let (rs, switches) = start(ex, run, ops, &fs, Path::new(""))?;
    judge("", ops, rs, want, &names(fs.snapshot("/")))?;
    no_temp(&fs)?;
    ensure!(fs.snapshot("/").keys().all(|k| k.starts_with("/w") || before.contains_key(k)), "something was made elsewhere");
    Ok(format!("{ops:?} {switches}"))
}

const POINTS: &[&str] = &["open", "read", "write", "truncate", "unlink", "rmdir", "mkdir"];

fn on_disk(ex: &Ex, ops: &[Op]) -> Res {
    let dir = Dir::new();
    let root = dir.0.canonicalize().unwrap();
    let want = all_files(ops);
    put_real(&root, &want.iter().map(|(k, v)| (k.as_bytes().to_vec(), v.clone())).collect());
    let os = Os::new(ex, &root, POINTS, &[]);
    let run = Run::start(ex);
    run.delay_bounded();
    run.os(os);
    let (rs, switches) = start(ex, run, ops, &Arc::new(FileStorage), &root)?;
    count("executions_on_disk", 1);
    let got: Want = real_tree(&root).into_iter().map(|(k, v)| (String::from_utf8_lossy(&k).into_owned(), v)).collect();
    judge(&root.to_string_lossy()[1..], ops, rs, want, &got)?;
    let left = dir.temp_left();
    ensure!(left.is_empty(), "temporary files are left: {left:?}");
    Ok(format!("{ops:?} {switches}"))
}

// ---- commands ----

#[derive(Clone)]
struct Cmd {
    name: &'static str,
    /// # stands for the number
    args: &'static str,
    setup: fn(&World, usize),
    judge: fn(&World, usize, &Done, &mut p_cli::Files) -> Res<()>,
}

fn cmds() -> Vec<Cmd> {
    use p_cli::*;
    fn text(i: usize) -> Vec<u8> {
        bytes(50 + i as u64, 70)
    }
    fn sealed_text(w: &World, f: &str, n: usize) -> Res<Vec<u8>> {
        let Some(d) = w.get(f) else { viol!("there is no {f}") };
        match open(None, &d, p_cli::PW) {
            Ok((_, t)) => ensure!(t == text(n), "{f} holds other bytes"),
            Err(e) => viol!("{f} is useless: {e}"),
        }
        Ok(d)
    }
    fn is(w: &World, f: String, d: Vec<u8>, want: &mut Files) -> Res<()> {
        ensure!(w.get(&f).as_ref() == Some(&d), "{f} isn't complete");
        want.insert(f, Some(d));
        Ok(())
    }
    vec![
        Cmd {
            name: "encrypt",
            args: "encrypt -k key in o#",
            setup: |w, _| {
                w.file("in", &text(7));
            },
            judge: |w, i, _, want| {
                let f = format!("o{i}");
                let d = sealed_text(w, &f, 7)?;
                is(w, f, d, want)
            },
        },
        Cmd {
            name: "encrypt and erase",
            args: "encrypt -k key --erase x# ox#",
            setup: |w, i| {
                w.file(&format!("x{i}"), &text(i));
            },
            judge: |w, i, _, want| {
                want.remove(&format!("x{i}"));
                let f = format!("ox{i}");
                let d = sealed_text(w, &f, i)?;
                is(w, f, d, want)
            },
        },
        Cmd {
            name: "decrypt",
            args: "decrypt -k key enc p#",
            setup: |w, _| {
                w.file("enc", &make(5, Alg::Aes, Mode::Stream, &[(p_cli::PW.to_vec(), Kdf::B5)], &text(8), 3).file());
            },
            judge: |w, i, _, want| is(w, format!("p{i}"), text(8), want),
        },
        Cmd {
            name: "pack",
            args: "pack -k key d a#",
            setup: |w, _| {
                put_d(w, "d");
            },
            judge: |w, i, _, want| {
                let f = format!("a{i}");
                let d = w.get(&f).unwrap_or_default();
                let mut t = tree_d("d");
                t.sort();
                ensure!(packed(None, &d, p_cli::PW)? == t, "{f} isn't the tree");
                is(w, f, d, want)
            },
        },
        Cmd {
            name: "pack and erase",
            args: "pack -f -k key --erase y# ay#",
            setup: |w, i| {
                w.file(&format!("y{i}/f"), &text(i)).file(&format!("y{i}/s/g"), b"g");
            },
            judge: |w, i, _, want| {
                let y = format!("y{i}");
                let f = format!("ay{i}");
                let d = w.get(&f).unwrap_or_default();
                let mut t = vec![(format!("{y}/"), None), (format!("{y}/f"), Some(text(i))), (format!("{y}/s/"), None), (format!("{y}/s/g"), Some(b"g".to_vec()))];
                t.sort();
                ensure!(packed(None, &d, p_cli::PW)? == t, "{f} isn't the tree");
                want.retain(|k, _| *k != y && !k.starts_with(&format!("{y}/")));
                is(w, f, d, want)
            },
        },
        Cmd {
            name: "unpack",
            args: "unpack -k key arc t#",
            setup: |w, _| {
                w.file("arc", &sealed(false, Alg::XChaCha).1);
            },
            judge: |w, i, _, want| {
                let t = format!("t{i}");
                unpacked(w, &t)?;
                want.insert(t.clone(), None);
                for (n, c) in entries() {
                    want.insert(format!("{t}/{}", n.trim_end_matches('/')), c.map(<[u8]>::to_vec));
                }
                Ok(())
            },
        },
        Cmd {
            name: "unpack into one directory",
            args: "unpack -f -k key part# all",
            setup: |w, i| {
                let p = parts(i);
                let e: Vec<(&str, Option<&[u8]>)> = p.iter().map(|(n, c)| (n.as_str(), c.as_deref())).collect();
                w.file(&format!("part{i}"), &make(5, Alg::XChaCha, Mode::Stream, &[(p_cli::PW.to_vec(), Kdf::B5)], &archive(&e, false), 21).file());
            },
            judge: |_, i, _, want| {
                want.insert("all".into(), None);
                for (n, c) in parts(i) {
                    want.insert(format!("all/{}", n.trim_end_matches('/')), c);
                }
                Ok(())
            },
        },
        Cmd {
            name: "hash",
            args: "hash in",
            setup: |w, _| {
                w.file("in", &text(7));
            },
            judge: |_, _, d, _| said_hashes(d, &[hash_of(&text(7))]),
        },
        Cmd {
            name: "erase",
            args: "erase z#",
            setup: |w, i| {
                w.file(&format!("z{i}"), b"secret");
            },
            judge: |_, i, _, want| {
                want.remove(&format!("z{i}"));
                Ok(())
            },
        },
        Cmd {
            name: "erase a directory",
            args: "erase -f zd#",
            setup: |w, i| {
                w.file(&format!("zd{i}/a"), b"secret").file(&format!("zd{i}/s/b"), b"secret too");
            },
            judge: |_, i, _, want| {
                let d = format!("zd{i}");
                want.retain(|k, _| *k != d && !k.starts_with(&format!("{d}/")));
                Ok(())
            },
        },
    ]
}

/// What is in the working directory
fn files(t: &Tree) -> p_cli::Files {
    let name = |k: &str| k.strip_prefix("w/").map(String::from);
    t.iter()
        .filter_map(|(k, n)| {
            let c = match n {
                Node::File(d) => Some(d.clone()),
                Node::Dir => None,
                Node::Link(t) => Some(format!("link to {t}").into_bytes()),
            };
            Some((name(k)?, c))
        })
        .collect()
}

fn prepared(a: &Cmd, b: &Cmd) -> World {
    let mut w = World::new();
    w.file("key", p_cli::PW);
    (a.setup)(&w, 0);
    (b.setup)(&w, 1);
    w.start();
    w
}

fn line(c: &Cmd, i: usize) -> crate::cli::Run {
    let a: Vec<String> = c.args.split(' ').map(|x| x.replace('#', &i.to_string())).collect();
    run(&a.iter().map(String::as_str).collect::<Vec<_>>())
}

/// How many calls each makes alone
fn alone(a: &Cmd, b: &Cmd, base: &OnceLock<(u64, u64)>) -> Res<(u64, u64)> {
    if let Some(n) = base.get() {
        return Ok(*n);
    }
    let w = prepared(a, b);
    let mut n = vec![];
    for (i, c) in [a, b].into_iter().enumerate() {
        let d = w.run(&line(c, i).log());
        d.judge()?;
        ensure!(d.ok(), "{} failed: {}", c.name, d.short());
        n.push(d.log.iter().map(|c| c.n).max().unwrap_or(0));
    }
    let _ = base.set((n[0], n[1]));
    Ok((n[0], n[1]))
}

fn commands(ex: &Ex, a: &Cmd, b: &Cmd, base: &OnceLock<(u64, u64)>, both: bool) -> Res {
    let (na, nb) = alone(a, b, base)?;
    let n = u64::from(ex.pick("call of the first", na as u32)) + 1;
    let m = if both { Some(u64::from(ex.pick("call of the second", nb as u32)) + 1) } else { None };
    let w = prepared(a, b);
    let (da, db) = w.together(&line(a, 0), n, &line(b, 1), m);
    let place = format!("{} up to call {n}, {} up to {m:?}", a.name, b.name);
    let mut want: p_cli::Files = files(&w.before);
    for (i, (c, d)) in [(a, &da), (b, &db)].into_iter().enumerate() {
        let told = |v: Viol| Viol { msg: format!("{place}: {}: {} ({})", c.name, v.msg, d.short()), ..v };
        d.judge().map_err(told)?;
        ensure!(d.ok(), "{place}: {} failed: {}", c.name, d.short());
        (c.judge)(&w, i, d, &mut want).map_err(told)?;
    }
    let tree = w.tree();
    let tmp: Vec<_> = tree.keys().filter(|k| k.starts_with("tmp/")).collect();
    ensure!(tmp.is_empty(), "{place}: temporary files are left: {tmp:?}");
    let got = files(&tree);
    for (k, v) in &want {
        ensure!(got.get(k) == Some(v), "{place}: {k} isn't what it is when the commands run one after another");
    }
    for k in got.keys() {
        ensure!(want.contains_key(k), "{place}: {k} was made");
    }
    count("pairs_of_commands", 1);
    Ok(format!("{place} {:?}", (da.code, db.code)))
}

pub fn c28(thorough: bool) -> Vec<Job> {
    let mut jobs = vec![];
    for (i, a) in OPS.into_iter().enumerate() {
        for b in OPS.into_iter().skip(i) {
            let heavy = |o: Op| matches!(o, Op::Pack | Op::Unpack | Op::UnpackShared | Op::EraseDir | Op::Blocked);
            let light = usize::from(!heavy(a)) + usize::from(!heavy(b));
            let shared = [a, b].iter().any(|o| matches!(o, Op::UnpackShared | Op::Blocked));
            let bound = if thorough || !shared { 2 + usize::from(light == 2) + usize::from(thorough && light > 0) } else { 1 + usize::from(light > 0) };
            jobs.push(Job::new(format!("{a:?} beside {b:?}"), bound, move |ex| on_model(ex, &[a, b])));
            jobs.push(Job::new(format!("on disk: {a:?} beside {b:?}"), bound - usize::from(!thorough), move |ex| on_disk(ex, &[a, b])));
        }
    }
    let mut three = vec![[Op::Pack, Op::Pack, Op::Unpack], [Op::UnpackShared, Op::UnpackShared, Op::UnpackShared], [Op::Encrypt, Op::Encrypt, Op::Pack]];
    if thorough {
        three.extend([[Op::Pack, Op::EraseDir, Op::Unpack], [Op::Decrypt, Op::Unpack, Op::Unpack], [Op::AddKey, Op::Strip, Op::Hash]]);
    }
    for t in three {
        jobs.push(Job::new(format!("three: {t:?}"), 1 + usize::from(thorough), move |ex| on_model(ex, &t)));
    }
    let all = cmds();
    for a in &all {
        for b in &all {
            let (a1, b1, base) = (a.clone(), b.clone(), OnceLock::new());
            jobs.push(Job::new(format!("the command: {} while {} is at any call", b.name, a.name), 0, move |ex| commands(ex, &a1, &b1, &base, false)));
            let short = ["encrypt", "encrypt and erase", "decrypt", "erase"];
            if short.contains(&a.name) && short.contains(&b.name) && a.name <= b.name || thorough && a.name != "hash" && b.name != "hash" {
                let (a2, b2, base) = (a.clone(), b.clone(), OnceLock::new());
                jobs.push(Job::new(format!("the command: {} and {} at any calls", a.name, b.name), 0, move |ex| commands(ex, &a2, &b2, &base, true)));
            }
        }
    }
    jobs
}
