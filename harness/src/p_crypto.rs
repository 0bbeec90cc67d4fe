//! C01, C03-C09, C22, C23, C26, C27: formats, ciphers, key derivation, randomness.

use crate::explore::{sut, Ex, Job, Res};
use crate::mfile::{node, Policy};
use crate::ops::*;
use crate::refimpl::{bytes, header_len, make, Alg, Hdr, Kdf, Mode, ALGS, BLOCK, KDFS, TAG};
use crate::{ensure, viol};
use corecrypto::header::{HashingAlgorithm, Header, HeaderType, HeaderVersion, Keyslot};
use corecrypto::stream::{DecryptionStreams, EncryptionStreams};
use std::cell::RefCell;
use std::io::{Cursor, Seek, SeekFrom};

pub fn sizes(thorough: bool) -> Vec<usize> {
    let b = BLOCK;
    let mut v = vec![
        0, 1, 2, 15, 16, 17, 31, 32, 33, 63, 64, 65, 127, 128, 129, 399, 400, 401, 415, 416, 417, 432, 511, 512, 513, 4095, 4096, 4097,
        65535, 65536, 65537,
        b - 417, b - 416, b - 415, b - 17, b - 16, b - 15, b - 1, b, b + 1, b + 15, b + 16, b + 17, b + 416,
        2 * b - 32, 2 * b - 16, 2 * b - 1, 2 * b, 2 * b + 1, 2 * b + 16, 2 * b + 31, 2 * b + 32, 2 * b + 33, 3 * b - 1, 3 * b, 3 * b + 1, 4 * b, 5 * b + 7,
    ];
    if thorough {
        v.extend([3, 5, 8, 100, 1000, 10_000, 100_000, 500_000, b / 2, 4 * b - 1, 4 * b + 1, 5 * b, 6 * b, 7 * b + 3, 8 * b, 8 * b - 1, 16 * b, 17 * b + 1, 33 * b]);
    }
    v
}

/// (version, kdf) pairs encryption supports
pub fn combos() -> Vec<(u8, Kdf)> {
    let mut v: Vec<(u8, Kdf)> = KDFS.into_iter().map(|k| (5, k)).collect();
    v.push((4, Kdf::B4));
    v
}

fn plain(kind: u32, n: usize) -> Vec<u8> {
    match kind {
        0 => bytes(n as u64 ^ 0xABCD, n),
        1 => vec![0u8; n],
        2 => {
            // content that looks like a header itself
            let mut v = vec![0xDE, 0x05, 0x0E, 0x02, 0x0C, 0x01];
            v.resize(n.max(6), 0);
            v.truncate(n);
            v
        }
        _ => vec![0xFF; n],
    }
}

fn show(p: &[u8]) -> String {
    if p.len() <= 24 {
        format!("{:?}", String::from_utf8_lossy(p))
    } else {
        format!("[{} bytes]", p.len())
    }
}

/// One round trip; both results have to be success.
fn round_trip(ex: &Ex, v: u8, a: Alg, k: Kdf, detached: bool, p: &[u8], password: &[u8]) -> Res {
    let (r, o, h) = encrypt_bytes(ex, p, password, header_type(v, a, Mode::Stream), kdf(k), detached)?;
    if let Err(e) = r {
        viol!("encrypting {} bytes with {a:?}/{k:?}/V{v} detached={detached} password={} failed: {e}", p.len(), show(password));
    }
    let (r, back) = decrypt_bytes(ex, detached.then_some(&h[..]), &o, password)?;
    if let Err(e) = r {
        viol!("{} bytes encrypted with {a:?}/{k:?}/V{v} detached={detached} password={} don't decrypt: {e}", p.len(), show(password));
    }
    ensure!(
        back == p,
        "{} bytes encrypted with {a:?}/{k:?}/V{v} detached={detached} password={} decrypt to {} other bytes",
        p.len(),
        show(password),
        back.len()
    );
    Ok(format!("{}+{} ok", o.len(), h.len()))
}

pub fn c01(thorough: bool) -> Vec<Job> {
    let mut jobs = vec![];
    for (v, k) in combos() {
        for a in ALGS {
            for detached in [false, true] {
                let sz = sizes(thorough);
                jobs.push(Job::new(format!("sizes V{v} {k:?} {a:?} detached={detached}"), 0, move |ex| {
                    let n = sz[ex.pick("size", sz.len() as u32) as usize];
                    let kind = if n <= 70_000 { ex.pick("content", 4) } else { 0 };
                    round_trip(ex, v, a, k, detached, &plain(kind, n), b"correct horse")
                }));
                jobs.push(Job::new(format!("passwords V{v} {k:?} {a:?} detached={detached}"), 0, move |ex| {
                    let mut pws = passwords();
                    pws.push(vec![]);
                    let p = &pws[ex.pick("password", pws.len() as u32) as usize];
                    let n = [0usize, 5, 700][ex.pick("size", 3) as usize];
                    round_trip(ex, v, a, k, detached, &plain(0, n), p)
                }));
                // standard in-memory cursors and streams that aren't at their start
                jobs.push(Job::new(format!("cursors V{v} {k:?} {a:?} detached={detached}"), 0, move |ex| {
                    let n = [0usize, 1, 16, 100, 399, 400, 416, 1000, BLOCK, BLOCK + 1][ex.pick("size", 10) as usize];
                    let pos = [0u64, 1, n as u64, n as u64 + 5][ex.pick("reader position", 4) as usize];
                    let wpos = [0u64, 3][ex.pick("writer position", 2) as usize];
                    let p = plain(0, n);
                    let cur = |d: Vec<u8>, at: u64| {
                        let mut c = Cursor::new(d);
                        c.set_position(at);
                        RefCell::new(c)
                    };
                    let (i, o, h) = (cur(p.clone(), pos), cur(vec![], wpos), cur(vec![], wpos));
                    let r = sut("encrypt", || {
                        tools::encrypt::execute(tools::encrypt::Request {
                            reader: &i,
                            writer: &o,
                            header_writer: detached.then_some(&h),
                            raw_key: pw(b"pw"),
                            header_type: header_type(v, a, Mode::Stream),
                            hashing_algorithm: kdf(k),
                        })
                    })?;
                    ensure!(r.is_ok(), "encryption over cursors failed: {r:?}");
                    let (o, h) = (cur(o.into_inner().into_inner(), 0), cur(h.into_inner().into_inner(), 0));
                    let out = cur(vec![], 0);
                    let r = sut("decrypt", || {
                        tools::decrypt::execute(tools::decrypt::Request {
                            header_reader: detached.then_some(&h),
                            reader: &o,
                            writer: &out,
                            raw_key: pw(b"pw"),
                            on_decrypted_header: None,
                        })
                    })?;
                    ensure!(
                        r.is_ok(),
                        "{n} bytes encrypted over cursors (reader at {pos}, writer at {wpos}, detached={detached}) don't decrypt: {r:?}"
                    );
                    ensure!(out.into_inner().into_inner() == p, "{n} bytes encrypted over cursors decrypt to other bytes");
                    Ok(format!("{n}"))
                }));
            }
        }
    }
    // combinations outside of the table: refused, or decryptable
    jobs.push(Job::new("unsupported combinations are refused", 0, |ex| {
        let v = 1 + ex.pick("version", 5) as u8;
        let a = ALGS[ex.pick("alg", 3) as usize];
        let m = [Mode::Stream, Mode::Memory][ex.pick("mode", 2) as usize];
        let detached = ex.pick("detached", 2) == 1;
        let all: Vec<HashingAlgorithm> = (-2..=8)
            .flat_map(|i| [HashingAlgorithm::Argon2id(i), HashingAlgorithm::Blake3Balloon(i)])
            .chain([HashingAlgorithm::Argon2id(i32::MAX), HashingAlgorithm::Blake3Balloon(i32::MIN), HashingAlgorithm::Argon2id(256 + 3), HashingAlgorithm::Blake3Balloon(256 + 5)])
            .collect();
        let ha = all[ex.pick("hash", all.len() as u32) as usize];
        let p = plain(0, 77);
        let what = format!("V{v} {a:?} {m:?} {ha} detached={detached}");
        let (r, o, h) = encrypt_bytes(ex, &p, b"pw", header_type(v, a, m), ha, detached)?;
        if r.is_err() {
            let supported = m == Mode::Stream && combos().into_iter().any(|(cv, k)| cv == v && kdf(k) == ha);
            ensure!(!supported, "{what} is supported but encrypting failed");
            return Ok(format!("{what} refused"));
        }
        let (r, back) = decrypt_bytes(ex, detached.then_some(&h[..]), &o, b"pw")?;
        ensure!(r.is_ok() && back == p, "encryption with {what} reported success, but the result doesn't decrypt");
        Ok(format!("{what} ok"))
    }));
    jobs
}

/// The area of a header that decryption authenticates.
fn authenticated(h: &Hdr, i: usize) -> bool {
    match h.version {
        1 | 2 => false,
        3 => i < 64,
        4 => i < 48 || i >= 96 + h.alg.nonce_len(),
        _ => i < 32,
    }
}

/// Decrypting a damaged file: failure with a prefix, or exactly the original.
fn judge(ex: &Ex, what: &str, header: Option<&[u8]>, data: &[u8], password: &[u8], original: &[u8], must_fail: bool) -> Res {
    let (r, out) = decrypt_bytes(ex, header, data, password)?;
    match r {
        Ok(()) => {
            ensure!(!must_fail, "{what}: accepted");
            ensure!(out == original, "{what}: decrypts to altered plaintext");
            Ok("original".into())
        }
        Err(_) => {
            ensure!(original.starts_with(&out), "{what}: wrote {} bytes that aren't a prefix of the plaintext", out.len());
            Ok(format!("fails after {}", out.len()))
        }
    }
}

pub fn c03(thorough: bool) -> Vec<Job> {
    let mut jobs = vec![];
    for a in ALGS {
        for v in 1..=5u8 {
            for m in [Mode::Stream, Mode::Memory] {
                let kdfs: &[Kdf] = if v == 5 { &[Kdf::B5, Kdf::A3] } else { &[Kdf::B4] };
                let pws: Vec<(Vec<u8>, Kdf)> = kdfs.iter().enumerate().map(|(i, k)| (format!("pw{i}").into_bytes(), *k)).collect();
                // every single bit of a small file
                let pws1 = pws.clone();
                jobs.push(Job::new(format!("bit flips V{v} {a:?} {m:?}"), 0, move |ex| {
                    let p = bytes(9, 41);
                    let made = make(v, a, m, &pws1, &p, 77);
                    let f = made.file();
                    let byte = ex.pick("byte", f.len() as u32) as usize;
                    let mut out = String::new();
                    for bit in 0..8 {
                        let mut g = f.clone();
                        g[byte] ^= 1 << bit;
                        let must = byte >= made.header.len() || authenticated(&made.hdr, byte);
                        out += &judge(ex, &format!("flipping bit {bit} of byte {byte}"), None, &g, &pws1[0].0, &p, must)?;
                        // the same with the header stored separately
                        let (h, d) = g.split_at(made.header.len());
                        judge(ex, &format!("flipping bit {bit} of byte {byte}, detached"), Some(h), d, &pws1[0].0, &p, must)?;
                    }
                    Ok(out)
                }));
                // every truncation and extension of a small file
                let pws2 = pws.clone();
                jobs.push(Job::new(format!("lengths V{v} {a:?} {m:?}"), 0, move |ex| {
                    let p = bytes(9, [0usize, 1, 40][ex.pick("size", 3) as usize]);
                    let made = make(v, a, m, &pws2, &p, 78);
                    let f = made.file();
                    let n = ex.pick("length", f.len() as u32 + 40) as usize;
                    if n == f.len() {
                        return judge(ex, "unchanged", None, &f, &pws2[0].0, &p, false);
                    }
                    let fill = if n > f.len() { ex.pick("fill", 2) as u8 * 0xA5 } else { 0 };
                    let mut g = f.clone();
                    g.resize(n, fill);
                    judge(ex, &format!("length {n} instead of {}", f.len()), None, &g, &pws2[0].0, &p, true)?;
                    if n > made.header.len() {
                        let (h, d) = g.split_at(made.header.len());
                        judge(ex, &format!("length {n} instead of {}, detached", f.len()), Some(h), d, &pws2[0].0, &p, true)?;
                    }
                    Ok(format!("{n}"))
                }));
            }
            // splices of blocks: every sequence of up to `depth` blocks of two files
            let depth = if thorough { 4 } else { 3 };
            let extra = [0usize, 100][usize::from(a == Alg::Aes)];
            for detached in [false, true] {
                if v != 5 && v != 3 && detached {
                    continue;
                }
                jobs.push(Job::new(format!("splices V{v} {a:?} detached={detached}"), 0, move |ex| {
                    let (fa, fb) = splice_files(v, a, extra);
                    let blocks: Vec<&[u8]> = fa.1.chunks(BLOCK + TAG).chain(fb.1.chunks(BLOCK + TAG)).collect();
                    let mut seq = vec![];
                    let len = ex.pick("blocks", depth + 1);
                    for _ in 0..len {
                        seq.push(ex.pick("block", blocks.len() as u32) as usize);
                    }
                    let data: Vec<u8> = seq.iter().flat_map(|i| blocks[*i]).copied().collect();
                    // what the sequence means
                    let p = splice_plain(extra);
                    let is_original = data == fa.1;
                    let what = format!("blocks {seq:?} of 0-2 (this file) and 3-5 (another)");
                    let mut f = fa.0.clone();
                    f.extend(&data);
                    if detached {
                        judge(ex, &what, Some(&fa.0), &data, b"pw", &p, !is_original)
                    } else {
                        judge(ex, &what, None, &f, b"pw", &p, !is_original)
                    }
                }));
            }
            jobs.push(Job::new(format!("large file damage V{v} {a:?}"), 0, move |ex| {
                let (fa, _) = splice_files(v, a, extra);
                let p = splice_plain(extra);
                let total = fa.1.len();
                let edges = [0usize, BLOCK + TAG, 2 * (BLOCK + TAG), total];
                let e = edges[ex.pick("edge", 4) as usize] as i64;
                let d = [-17i64, -16, -1, 0, 1, 15, 16, 17, 512][ex.pick("offset", 9) as usize];
                let at = e + d;
                let mut f = fa.0.clone();
                let op = ex.pick("damage", 4);
                let mut data = fa.1.clone();
                match op {
                    0 => data.truncate(at.clamp(0, total as i64) as usize),
                    1 => {
                        let i = at.clamp(0, total as i64 - 1) as usize;
                        data[i] ^= 0x80;
                    }
                    2 => {
                        // a byte goes missing
                        let i = at.clamp(0, total as i64 - 1) as usize;
                        data.remove(i);
                    }
                    _ => {
                        let i = at.clamp(0, total as i64) as usize;
                        data.insert(i, 0);
                    }
                }
                let unchanged = data == fa.1;
                f.extend(&data);
                judge(ex, &format!("damage {op} at {at} of {total}"), None, &f, b"pw", &p, !unchanged)
            }));
        }
    }
    // headers and payloads of different files, versions and algorithms
    jobs.push(Job::new("foreign headers", 0, |ex| {
        let all: Vec<(u8, Alg, Mode)> = (1..=5).flat_map(|v| ALGS.into_iter().flat_map(move |a| [(v, a, Mode::Stream), (v, a, Mode::Memory)])).collect();
        let x = all[ex.pick("header of", all.len() as u32) as usize];
        let y = all[ex.pick("payload of", all.len() as u32) as usize];
        let mk = |(v, a, m), seed| make(v, a, m, &[(b"pw".to_vec(), Kdf::B4)], &bytes(5, 300), seed);
        let (h, d) = (mk(x, 1), mk(y, 2));
        let mut f = h.header.clone();
        f.extend(&d.payload);
        judge(ex, &format!("header of {x:?} with payload of {y:?}"), None, &f, b"pw", &bytes(5, 300), true)?;
        judge(ex, &format!("header of {x:?} with payload of {y:?}, detached"), Some(&h.header), &d.payload, b"pw", &bytes(5, 300), true)
    }));
    // one file's mode, algorithm or version tag replaced by every other one
    jobs.push(Job::new("tags replaced", 0, |ex| {
        let v = 1 + ex.pick("version", 5) as u8;
        let a = ALGS[ex.pick("alg", 3) as usize];
        let m = [Mode::Stream, Mode::Memory][ex.pick("mode", 2) as usize];
        let p = bytes(6, 200);
        let made = make(v, a, m, &[(b"pw".to_vec(), if v == 5 { Kdf::B5 } else { Kdf::B4 })], &p, 5);
        let f = made.file();
        let mut g = f.clone();
        g[1] = 1 + ex.pick("to version", 5) as u8;
        g[3] = 1 + ex.pick("to alg", 3) as u8;
        g[5] = 1 + ex.pick("to mode", 2) as u8;
        let same = f == g;
        judge(ex, "tags replaced", None, &g, b"pw", &p, !same && v >= 3)
    }));
    jobs
}

fn splice_plain(extra: usize) -> Vec<u8> {
    bytes(100, 2 * BLOCK + extra)
}

type Split = std::sync::Arc<(Vec<u8>, Vec<u8>)>;

/// Two three-block files under the same password (cached: making them costs more than judging)
fn splice_files(v: u8, a: Alg, extra: usize) -> (Split, Split) {
    use std::collections::HashMap;
    use std::sync::{Arc, Mutex, OnceLock};
    type Cache = Mutex<HashMap<(u8, Alg, usize), (Split, Split)>>;
    static CACHE: OnceLock<Cache> = OnceLock::new();
    let cache = CACHE.get_or_init(Default::default);
    let mut g = cache.lock().unwrap();
    g.entry((v, a, extra))
        .or_insert_with(|| {
            let pws = [(b"pw".to_vec(), if v == 5 { Kdf::B5 } else { Kdf::B4 })];
            let x = make(v, a, Mode::Stream, &pws, &splice_plain(extra), 31);
            let y = make(v, a, Mode::Stream, &pws, &bytes(101, 2 * BLOCK + extra), 32);
            (Arc::new((x.header, x.payload)), Arc::new((y.header, y.payload)))
        })
        .clone()
}

/// Byte strings close to a password, one after another (all at once they'd fill the memory).
fn neighbours(p: &[u8]) -> impl Iterator<Item = (String, Vec<u8>)> + '_ {
    let n = p.len();
    let step = if n > 20_000 { 1024 } else { 64 };
    let places = (0..n).filter(move |i| n <= 300 || i % step == 0 || i % step == step - 1 || i + 70 >= n);
    let inner = places.flat_map(move |i| {
        (0..11).map(move |k| {
            let mut q = p.to_vec();
            match k {
                0..8 => {
                    q[i] ^= 1 << k;
                    (format!("bit {k} of byte {i} flipped"), q)
                }
                8 => (format!("its first {i} bytes"), p[..i].to_vec()),
                9 => (format!("without its first {} bytes", i + 1), p[i + 1..].to_vec()),
                _ => {
                    q.remove(i);
                    (format!("without byte {i}"), q)
                }
            }
        })
    });
    let mut v = vec![];
    for b in [0u8, b' ', b'\n', b'\r', b'\t', b'a', 0xff] {
        let mut q = p.to_vec();
        q.push(b);
        v.push((format!("with byte {b:#x} appended"), q));
        let mut q = vec![b];
        q.extend(p);
        v.push((format!("with byte {b:#x} prepended"), q));
    }
    let mut q = p.to_vec();
    q.extend(b"\r\n");
    v.push(("with CRLF appended".into(), q));
    v.push(("upper case".into(), p.to_ascii_uppercase()));
    v.push(("lower case".into(), p.to_ascii_lowercase()));
    v.push(("reversed".into(), p.iter().rev().copied().collect()));
    v.push(("doubled".into(), [p, p].concat()));
    v.push(("trimmed".into(), String::from_utf8_lossy(p).trim().as_bytes().to_vec()));
    v.push(("lossy".into(), String::from_utf8_lossy(p).into_owned().into_bytes()));
    v.push(("up to NUL".into(), p.split(|b| *b == 0).next().unwrap().to_vec()));
    v.push(("hashed".into(), blake3::hash(p).as_bytes().to_vec()));
    v.push(("empty".into(), vec![]));
    inner.chain(v).filter(move |(_, q)| q != p)
}

pub fn c04(thorough: bool) -> Vec<Job> {
    let mut jobs = vec![];
    let mut kinds: Vec<(u8, Vec<Kdf>)> = (1..=4).map(|v| (v, vec![Kdf::B4])).collect();
    kinds.extend(KDFS.map(|k| (5, vec![k])));
    kinds.push((5, vec![Kdf::B5, Kdf::A1, Kdf::B4, Kdf::A3]));
    for a in ALGS {
        for (v, ks) in &kinds {
            let (v, ks) = (*v, ks.clone());
            if !thorough && a != ALGS[(v as usize + ks[0].id() as usize) % 3] {
                continue;
            }
            let npw = passwords().len() as u32;
            jobs.push(Job::new(format!("neighbouring passwords V{v} {ks:?} {a:?}"), 0, move |ex| {
                let p = passwords()[ex.pick("password", npw) as usize].clone();
                // the password sits in the last slot
                let mut pws: Vec<(Vec<u8>, Kdf)> = ks[1..].iter().enumerate().map(|(i, k)| (format!("other{i}").into_bytes(), *k)).collect();
                pws.push((p.clone(), ks[0]));
                let text = bytes(3, 50);
                let made = make(v, a, if p.len() % 2 == 0 { Mode::Stream } else { Mode::Memory }, &pws, &text, 7);
                let f = made.file();
                let accept = |q: &[u8]| -> Res<(bool, bool)> {
                    let (r, out) = decrypt_bytes(ex, None, &f, q)?;
                    ensure!(r.is_ok() || out.is_empty(), "a rejected password produced {} bytes of output", out.len());
                    ensure!(r.is_err() || out == text, "decrypted to other bytes");
                    let (rd, outd) = decrypt_bytes(ex, Some(&made.header), &made.payload, q)?;
                    ensure!(rd.is_ok() == r.is_ok(), "embedded and detached headers disagree");
                    ensure!(rd.is_ok() || outd.is_empty(), "a rejected password produced output (detached header)");
                    let h = node(f.clone());
                    let vr = KeyOp::Verify { pw: q.to_vec() }.run(&file(ex, &h, "f", Policy::Full))?;
                    Ok((r.is_ok(), if v == 5 { vr.is_ok() } else { r.is_ok() }))
                };
                for (q, _) in &pws {
                    ensure!(accept(q)? == (true, true), "a registered password ({}) is rejected", show(q));
                }
                let mut count = 0;
                for (what, q) in neighbours(&p) {
                    if pws.iter().any(|(x, _)| *x == q) {
                        continue;
                    }
                    let (d, ver) = accept(&q)?;
                    ensure!(!d, "decryption accepts {} although the password is {}: {what}", show(&q), show(&p));
                    ensure!(!ver, "verification accepts {} although the password is {}: {what}", show(&q), show(&p));
                    count += 1;
                }
                Ok(format!("{count} rejected"))
            }));
        }
    }
    // what encryption and key changes register is exactly what opens the file
    for (v, k) in combos() {
        jobs.push(Job::new(format!("registered passwords V{v} {k:?}"), 0, move |ex| {
            let i = ex.pick("password", passwords().len() as u32) as usize;
            let p = passwords()[i].clone();
            let a = if thorough { ALGS[ex.pick("alg", 3) as usize] } else { ALGS[(i + k.id() as usize) % 3] };
            let (r, f, _) = encrypt_bytes(ex, b"text", &p, header_type(v, a, Mode::Stream), kdf(k), false)?;
            ensure!(r.is_ok(), "encrypt failed");
            let h = Hdr::parse(&f);
            ensure!(h.as_ref().and_then(|h| h.master(&p)).is_some(), "the password isn't the one the header was made with");
            let how = if v == 5 { ex.pick("via", 3) } else { 0 };
            let n = node(f);
            let mut reg = vec![p.clone()];
            if how == 1 {
                let q = [&p[..], b"2"].concat();
                let r = KeyOp::Add { old: p.clone(), new: q.clone(), kdf: k }.run(&file(ex, &n, "f", Policy::Full))?;
                ensure!(r.is_ok(), "add failed: {r:?}");
                reg.push(q);
            } else if how == 2 {
                let q = [b"2", &p[..]].concat();
                let r = KeyOp::Change { old: p.clone(), new: q.clone(), kdf: k }.run(&file(ex, &n, "f", Policy::Full))?;
                ensure!(r.is_ok(), "change failed: {r:?}");
                reg = vec![q];
            }
            let f = n.lock().unwrap().data.clone();
            for q in &reg {
                ensure!(decrypt_bytes(ex, None, &f, q)?.0.is_ok(), "a registered password is rejected");
            }
            let last = neighbours(reg.last().unwrap()).chain([("the previous one".into(), p.clone())]);
            // one flip per byte in the quick tier (the other bits: see above)
            let some = |j: usize, what: &str| thorough || !what.ends_with("flipped") || j % 11 % 8 == how as usize;
            for (_, (what, q)) in last.enumerate().filter(|(j, (what, q))| !reg.contains(q) && some(*j, what)) {
                ensure!(decrypt_bytes(ex, None, &f, &q)?.0.is_err(), "an unregistered password opens the file: {what}");
            }
            Ok(format!("{how} {}", reg.len()))
        }));
    }
    jobs
}

pub fn c05(thorough: bool) -> Vec<Job> {
    let mut jobs = vec![];
    for v in 1..=5u8 {
        for a in ALGS {
            for m in [Mode::Stream, Mode::Memory] {
                let slots: Vec<Vec<Kdf>> = if v == 5 {
                    let mut s: Vec<Vec<Kdf>> = KDFS.into_iter().map(|k| vec![k]).collect();
                    s.push(vec![Kdf::B5, Kdf::A3]);
                    s.push(vec![Kdf::A1, Kdf::B4, Kdf::A2]);
                    s.push(vec![Kdf::A3, Kdf::B5, Kdf::A1, Kdf::B4]);
                    s.push(vec![Kdf::A2, Kdf::A2, Kdf::A2, Kdf::A2]);
                    s
                } else {
                    vec![vec![Kdf::B4]]
                };
                for ks in slots {
                    let sz = sizes(thorough);
                    jobs.push(Job::new(format!("V{v} {a:?} {m:?} {ks:?}"), 0, move |ex| {
                        let n = sz[ex.pick("size", sz.len() as u32) as usize];
                        let (small, multi) = (n <= 600, ks.len() > 1);
                        let first = v < 5 || ks == [Kdf::B5];
                        if !small && if thorough { multi && n % 2 == 0 } else { !first } {
                            return Ok("skipped (covered with one slot)".into());
                        }
                        let p = bytes(n as u64, n);
                        let pws: Vec<(Vec<u8>, Kdf)> = ks.iter().enumerate().map(|(i, k)| (format!("password {i}").into_bytes(), *k)).collect();
                        let made = make(v, a, m, &pws, &p, n as u64 + 1);
                        for (q, _) in &pws {
                            let (r, out) = decrypt_bytes(ex, None, &made.file(), q)?;
                            ensure!(r.is_ok(), "{n} bytes don't decrypt: {r:?}");
                            ensure!(out == p, "{n} bytes decrypt to other bytes");
                            let (r, out) = decrypt_bytes(ex, Some(&made.header), &made.payload, q)?;
                            ensure!(r.is_ok(), "{n} bytes don't decrypt with a detached header: {r:?}");
                            ensure!(out == p, "{n} bytes decrypt to other bytes with a detached header");
                            // header stripped from the file but kept separately
                            let mut z = vec![0u8; made.header.len()];
                            z.extend(&made.payload);
                            let (r, out) = decrypt_bytes(ex, Some(&made.header), &z, q)?;
                            ensure!(r.is_ok() && out == p, "{n} bytes don't decrypt with a detached header and a stripped file: {r:?}");
                        }
                        // longer header file than needed
                        let mut long = made.header.clone();
                        long.extend(&made.payload[..made.payload.len().min(50)]);
                        let (r, out) = decrypt_bytes(ex, Some(&long), &made.payload, &pws[0].0)?;
                        ensure!(r.is_ok() && out == p, "a header file with trailing bytes isn't accepted");
                        Ok(format!("{}", made.payload.len()))
                    }));
                }
            }
        }
    }
    // files made once, with the real key derivation
    let dir = std::path::Path::new(env!("CARGO_MANIFEST_DIR")).join("golden");
    let mut names: Vec<_> = std::fs::read_dir(&dir).map(|d| d.filter_map(|e| e.ok()).map(|e| e.file_name().into_string().unwrap()).collect()).unwrap_or_default();
    names.retain(|n: &String| n.ends_with(".enc"));
    names.sort();
    for name in names {
        let data = std::fs::read(dir.join(&name)).unwrap();
        let plain = std::fs::read(dir.join(name.replace(".enc", ".txt"))).unwrap();
        jobs.push(Job::new(format!("golden {name}"), 0, move |ex| {
            let (r, out) = mctape::with_real_kdf(|| decrypt_bytes(ex, None, &data, b"golden password"))?;
            ensure!(r.is_ok(), "a file of the past doesn't decrypt any more: {r:?}");
            ensure!(out == plain, "a file of the past decrypts to other bytes");
            Ok(name.clone())
        }));
    }
    jobs
}

/// Makes the golden files (run once; the results are committed)
pub fn make_golden(dir: &std::path::Path) {
    std::fs::create_dir_all(dir).unwrap();
    mctape::with_real_kdf(|| {
        let mut i = 0;
        let mut put = |v: u8, a: Alg, m: Mode, ks: &[Kdf]| {
            i += 1;
            let p = bytes(900 + i, 20 + i as usize);
            let mut pws: Vec<(Vec<u8>, Kdf)> = ks.iter().enumerate().map(|(i, k)| (format!("other {i}").into_bytes(), *k)).collect();
            pws.last_mut().unwrap().0 = b"golden password".to_vec();
            let made = make(v, a, m, &pws, &p, 4000 + i);
            let n = format!("v{v}-{a:?}-{m:?}-{}", ks.iter().map(|k| format!("{k:?}")).collect::<String>());
            std::fs::write(dir.join(format!("{n}.enc")), made.file()).unwrap();
            std::fs::write(dir.join(format!("{n}.txt")), p).unwrap();
        };
        put(1, Alg::XChaCha, Mode::Stream, &[Kdf::A1]);
        put(1, Alg::Aes, Mode::Memory, &[Kdf::A1]);
        put(2, Alg::Aes, Mode::Stream, &[Kdf::A2]);
        put(3, Alg::Deoxys, Mode::Stream, &[Kdf::A3]);
        put(4, Alg::XChaCha, Mode::Stream, &[Kdf::B4]);
        put(4, Alg::Deoxys, Mode::Memory, &[Kdf::B4]);
        put(5, Alg::Aes, Mode::Stream, &[Kdf::B5]);
        put(5, Alg::XChaCha, Mode::Stream, &[Kdf::A1]);
        put(5, Alg::Deoxys, Mode::Stream, &[Kdf::A2]);
        put(5, Alg::Aes, Mode::Memory, &[Kdf::A3]);
        put(5, Alg::XChaCha, Mode::Stream, &[Kdf::B4]);
        put(5, Alg::Deoxys, Mode::Stream, &[Kdf::B5, Kdf::A1]);
    });
}

pub fn c06(thorough: bool) -> Vec<Job> {
    let mut jobs = vec![];
    for (v, k) in combos() {
        for a in ALGS {
            for detached in [false, true] {
                let sz = sizes(thorough);
                jobs.push(Job::new(format!("V{v} {k:?} {a:?} detached={detached}"), 0, move |ex| {
                    let n = sz[ex.pick("size", sz.len() as u32) as usize];
                    let p = plain(u32::from(n % 3 == 0), n);
                    let pws = passwords();
                    let password = &pws[n % pws.len()];
                    let (r, o, h) = encrypt_bytes(ex, &p, password, header_type(v, a, Mode::Stream), kdf(k), detached)?;
                    ensure!(r.is_ok(), "encrypt failed: {r:?}");
                    check_format(v, a, k, detached, &p, password, &o, &h)?;
                    if detached {
                        // cut in two, or whole: the same file
                        let mut f = h.clone();
                        f.extend(&o);
                        let (r, back) = decrypt_bytes(ex, None, &f, password)?;
                        ensure!(r.is_ok() && back == p, "header and payload put together don't decrypt");
                    } else {
                        let (hh, d) = o.split_at(header_len(v));
                        let (r, back) = decrypt_bytes(ex, Some(hh), d, password)?;
                        ensure!(r.is_ok() && back == p, "header and payload cut apart don't decrypt");
                    }
                    Ok(format!("{}", o.len()))
                }));
            }
        }
    }
    // slots written by key operations follow the format as well
    jobs.push(Job::new("slots written by key operations", 0, |ex| {
        let a = ALGS[ex.pick("alg", 3) as usize];
        let k0 = KDFS[ex.pick("kdf", 5) as usize];
        let k1 = KDFS[ex.pick("new kdf", 5) as usize];
        let add = ex.pick("op", 2) == 0;
        let p = bytes(1, 100);
        let (r, f, _) = encrypt_bytes(ex, &p, b"one", header_type(5, a, Mode::Stream), kdf(k0), false)?;
        ensure!(r.is_ok(), "encrypt failed");
        let n = node(f.clone());
        let op = if add {
            KeyOp::Add { old: b"one".to_vec(), new: b"two".to_vec(), kdf: k1 }
        } else {
            KeyOp::Change { old: b"one".to_vec(), new: b"two".to_vec(), kdf: k1 }
        };
        let r = op.run(&file(ex, &n, "f", Policy::Full))?;
        ensure!(r.is_ok(), "{} failed: {r:?}", op.name());
        let g = n.lock().unwrap().data.clone();
        let Some(h) = Hdr::parse(&g) else { viol!("after {} the header doesn't follow the format", op.name()) };
        ensure!(h.slots.len() == 1 + usize::from(add), "{} slots after {}", h.slots.len(), op.name());
        let last = h.slots.last().unwrap();
        ensure!(last.kdf == k1, "the slot records {:?}, requested was {k1:?}", last.kdf);
        let key = k1.derive(b"two", &last.salt);
        let master = a.open(&key, &last.nonce, &[], &last.enc);
        ensure!(master.is_some(), "the new slot isn't the master key sealed under the new password");
        let m: [u8; 32] = master.unwrap().try_into().unwrap();
        ensure!(h.open_payload(&m, &h.aad(), &g[416..]) == Some(p), "the new slot holds another master key");
        Ok(format!("{a:?} {k0:?} {k1:?} {add}"))
    }));
    jobs
}

#[allow(clippy::too_many_arguments)]
pub fn check_format(v: u8, a: Alg, k: Kdf, detached: bool, p: &[u8], password: &[u8], o: &[u8], h: &[u8]) -> Res<()> {
    let hl = header_len(v);
    let (hb, payload) = if detached {
        ensure!(h.len() == hl, "the header file has {} bytes instead of {hl}", h.len());
        (h, o)
    } else {
        ensure!(o.len() >= hl, "the output is shorter than a header");
        o.split_at(hl)
    };
    let Some(hdr) = Hdr::parse(hb) else { viol!("the header doesn't follow the format: {:02x?}", &hb[..hb.len().min(64)]) };
    ensure!((hdr.version, hdr.alg, hdr.mode) == (v, a, Mode::Stream), "the header records another version, algorithm or mode");
    ensure!(hdr.slots.len() == 1, "{} key slots after encryption", hdr.slots.len());
    ensure!(hdr.slots[0].kdf == k, "the slot records another key derivation");
    if v == 5 {
        ensure!(hb[128..].iter().all(|b| *b == 0), "unused key slots aren't empty");
    }
    let want = p.len() + TAG * (p.len() / BLOCK + 1);
    ensure!(payload.len() == want, "the payload has {} bytes instead of {want}", payload.len());
    let Some(master) = hdr.master(password) else { viol!("the key slot doesn't open with the password") };
    let got = hdr.open_payload(&master, &hdr.aad(), payload);
    ensure!(got.is_some(), "the payload doesn't follow the format (block size, nonces, final marker or authenticated data)");
    ensure!(got.as_deref() == Some(p), "the payload isn't the plaintext");
    Ok(())
}

fn to_ref(h: &Header) -> Option<Hdr> {
    use corecrypto::primitives::{Algorithm, Mode as M};
    Some(Hdr {
        version: match h.header_type.version {
            HeaderVersion::V1 => 1,
            HeaderVersion::V2 => 2,
            HeaderVersion::V3 => 3,
            HeaderVersion::V4 => 4,
            HeaderVersion::V5 => 5,
        },
        alg: match h.header_type.algorithm {
            Algorithm::XChaCha20Poly1305 => Alg::XChaCha,
            Algorithm::Aes256Gcm => Alg::Aes,
            Algorithm::DeoxysII256 => Alg::Deoxys,
        },
        mode: match h.header_type.mode {
            M::StreamMode => Mode::Stream,
            M::MemoryMode => Mode::Memory,
        },
        nonce: h.nonce.clone(),
        salt: match h.header_type.version {
            HeaderVersion::V5 => [0; 16],
            _ => h.salt.unwrap_or_default(),
        },
        slots: h
            .keyslots
            .clone()
            .unwrap_or_default()
            .into_iter()
            .map(|s| {
                Some(crate::refimpl::Slot {
                    kdf: KDFS.into_iter().find(|k| kdf(*k) == s.hash_algorithm)?,
                    enc: s.encrypted_key,
                    nonce: s.nonce,
                    salt: s.salt,
                })
            })
            .collect::<Option<_>>()?,
    })
}

fn to_sut(h: &Hdr, salt_in_header: bool) -> Header {
    Header {
        header_type: HeaderType { version: version(h.version), algorithm: alg(h.alg), mode: mode(h.mode) },
        nonce: h.nonce.clone(),
        salt: (h.version <= 3 || salt_in_header).then_some(h.salt),
        keyslots: (h.version >= 4).then(|| {
            h.slots
                .iter()
                .map(|s| Keyslot { hash_algorithm: kdf(s.kdf), encrypted_key: s.enc, nonce: s.nonce.clone(), salt: s.salt })
                .collect()
        }),
    }
}

fn c07_check(h: &Hdr, salt_in_header: bool) -> Res {
    let want = h.bytes();
    let sh = to_sut(h, salt_in_header);
    let ser = sut("serialize", || sh.serialize())?;
    let Ok(ser) = ser else { viol!("a valid V{} header isn't serialised", h.version) };
    ensure!(ser == want, "V{} {:?} {:?} {} slots: the serialised header isn't the format's", h.version, h.alg, h.mode, h.slots.len());
    ensure!(sh.get_size() == ser.len() as u64, "the reported size {} isn't {}", sh.get_size(), ser.len());
    let mut written = vec![];
    ensure!(sut("write", || sh.write(&mut written))?.is_ok() && written == ser, "writing a header isn't serialising it");
    let aad = sut("create_aad", || sh.create_aad())?;
    let Ok(aad) = aad else { viol!("no authenticated data for a valid header") };
    ensure!(aad == h.aad(), "the authenticated data isn't the format's");
    for (before, after) in [(0usize, 0usize), (0, 1), (0, 600), (3, 0), (500, 77)] {
        let mut stream = vec![0xDE; before];
        stream.extend(&ser);
        stream.extend(vec![0xDF; after]);
        let mut c = Cursor::new(stream);
        c.seek(SeekFrom::Start(before as u64)).unwrap();
        let r = sut("deserialize", || Header::deserialize(&mut c))?;
        let Ok((back, aad2)) = r else { viol!("a serialised V{} header can't be read back", h.version) };
        ensure!(aad2 == aad, "the authenticated data differs between writing and reading");
        ensure!(c.position() == (before + ser.len()) as u64, "the reader is left at {} instead of {}", c.position(), before + ser.len());
        ensure!(back.get_size() == ser.len() as u64, "the size after reading differs");
        let Some(rh) = to_ref(&back) else { viol!("read back with an unknown key derivation") };
        ensure!(rh == *h, "V{} {:?} {:?}: read back differently:\n{rh:?}\ninstead of\n{h:?}", h.version, h.alg, h.mode);
        ensure!(sut("create_aad", || back.create_aad())?.ok() == Some(aad.clone()), "the authenticated data differs after reading");
        let again = sut("serialize", || back.serialize())?.ok();
        ensure!(again == Some(ser.clone()), "serialising what was read gives other bytes");
    }
    Ok(format!("V{} {:?} {:?} {:?}", h.version, h.alg, h.mode, h.slots.iter().map(|s| s.kdf).collect::<Vec<_>>()))
}

pub fn c07(_thorough: bool) -> Vec<Job> {
    let mut jobs = vec![];
    for v in 3..=5u8 {
        for a in ALGS {
            for m in [Mode::Stream, Mode::Memory] {
                jobs.push(Job::new(format!("V{v} {a:?} {m:?}"), 0, move |ex| {
                    let fill = ex.pick("fill", 4);
                    let pat = |seed: u64, n: usize| match fill {
                        0 => bytes(seed, n),
                        1 => vec![0u8; n],
                        2 => vec![0xFF; n],
                        _ => vec![0xDF; n],
                    };
                    let slots = match v {
                        3 => 0,
                        4 => 1,
                        _ => ex.pick("slots", 5),
                    };
                    let mut h = Hdr { version: v, alg: a, mode: m, nonce: pat(1, a.header_nonce_len(m)), salt: pat(2, 16).try_into().unwrap(), slots: vec![] };
                    for i in 0..slots {
                        let k = if v == 4 { Kdf::B4 } else { KDFS[ex.pick("kdf", 5) as usize] };
                        h.slots.push(crate::refimpl::Slot {
                            kdf: k,
                            enc: pat(10 + u64::from(i), 48).try_into().unwrap(),
                            nonce: pat(20 + u64::from(i), a.nonce_len()),
                            salt: pat(30 + u64::from(i), 16).try_into().unwrap(),
                        });
                    }
                    if v == 4 {
                        h.salt = h.slots[0].salt;
                        c07_check(&h, false)?;
                    }
                    if v == 5 {
                        h.salt = [0; 16];
                    }
                    c07_check(&h, v != 5)
                }));
            }
        }
    }
    // what can't be represented is refused
    jobs.push(Job::new("unrepresentable headers are refused", 0, |ex| {
        let a = ALGS[ex.pick("alg", 3) as usize];
        let m = [Mode::Stream, Mode::Memory][ex.pick("mode", 2) as usize];
        let case = ex.pick("case", 3);
        let mut h = Hdr { version: 4, alg: a, mode: m, nonce: bytes(1, a.header_nonce_len(m)), salt: [7; 16], slots: vec![] };
        let k = KDFS[ex.pick("kdf", 5) as usize];
        match case {
            0 if k != Kdf::B4 => {
                h.slots.push(crate::refimpl::make_slot(a, &[1; 32], k, b"pw", 3));
                let sh = to_sut(&h, false);
                ensure!(sut("serialize", || sh.serialize())?.is_err(), "a V4 header with {k:?} is serialised, although V4 can't record it");
            }
            1 => {
                for v in [1u8, 2] {
                    let mut sh = to_sut(&h, true);
                    sh.header_type.version = version(v);
                    ensure!(sut("serialize", || sh.serialize())?.is_err(), "a V{v} header is serialised");
                }
            }
            2 => {
                let mut sh = to_sut(&h, true);
                sh.header_type.version = HeaderVersion::V3;
                sh.salt = None;
                ensure!(sut("serialize", || sh.serialize())?.is_err(), "a V3 header without a salt is serialised");
            }
            _ => {}
        }
        Ok(format!("{case}"))
    }));
    jobs
}

/// Every operation on arbitrary bytes; returns what succeeded.
fn feed_all(ex: &Ex, data: &[u8], other: &[u8]) -> Res {
    let mut got = String::new();
    let mut add = |n: &str, ok: bool| got.push_str(&format!("{n}{} ", u8::from(ok)));
    let f = |d: &[u8]| node(d.to_vec());
    add("d", decrypt_bytes(ex, None, data, b"pw")?.0.is_ok());
    add("D", decrypt_bytes(ex, Some(data), other, b"pw")?.0.is_ok());
    let mut c = Cursor::new(data.to_vec());
    let r = sut("Header::deserialize", || Header::deserialize(&mut c))?;
    add("p", r.is_ok());
    if let Ok((h, _)) = r {
        let _ = sut("Header::serialize of what was read", || h.serialize())?;
        let _ = sut("Header::create_aad of what was read", || h.create_aad())?;
    }
    let (n, o) = (f(data), f(&[]));
    add("u", dump(&file(ex, &n, "in", Policy::Full), &file(ex, &o, "out", Policy::Full))?.is_ok());
    ensure!(n.lock().unwrap().data == data, "dumping modified its input");
    let n = f(data);
    let r = strip(&file(ex, &n, "f", Policy::Full))?;
    add("s", r.is_ok());
    ensure!(r.is_ok() || n.lock().unwrap().data == data, "strip reported an invalid header but modified the file");
    // as the dumped header, into a target with and without room
    for room in [vec![0u8; 500], vec![0u8; 100], vec![1u8; 500]] {
        let (h, t) = (f(data), f(&room));
        let r = restore(&file(ex, &h, "hdr", Policy::Full), &file(ex, &t, "target", Policy::Full))?;
        add("r", r.is_ok());
        ensure!(r.is_ok() || t.lock().unwrap().data == room, "restore failed but modified the target");
    }
    // as the target
    let t = f(data);
    let h = f(&good_header());
    let r = restore(&file(ex, &h, "hdr", Policy::Full), &file(ex, &t, "target", Policy::Full))?;
    add("t", r.is_ok());
    ensure!(r.is_ok() || t.lock().unwrap().data == data, "restore refused the target but modified it");
    for op in [
        KeyOp::Add { old: b"pw".to_vec(), new: b"n".to_vec(), kdf: Kdf::B5 },
        KeyOp::Change { old: b"pw".to_vec(), new: b"n".to_vec(), kdf: Kdf::A1 },
        KeyOp::Delete { old: b"pw".to_vec() },
        KeyOp::Verify { pw: b"pw".to_vec() },
    ] {
        let n = f(data);
        let r = op.run(&file(ex, &n, "f", Policy::Full))?;
        add("k", r.is_ok());
        ensure!(r.is_ok() || n.lock().unwrap().data == data, "{} failed but modified the file", op.name());
    }
    Ok(got)
}

fn good_header() -> Vec<u8> {
    make(5, Alg::Aes, Mode::Stream, &[(b"pw".to_vec(), Kdf::B5)], b"", 3).header
}

pub fn c08(thorough: bool) -> Vec<Job> {
    let mut jobs = vec![];
    jobs.push(Job::new("short inputs", 0, |ex| {
        let len = ex.pick("length", 4) as usize;
        let al = [0u8, 1, 0x0C, 0x0E, 0xDE, 0xDF, 0xFF, 5];
        let d: Vec<u8> = (0..len).map(|_| al[ex.pick("byte", 8) as usize]).collect();
        feed_all(ex, &d, b"0123456789")
    }));
    jobs.push(Job::new("every first two bytes", 0, |ex| {
        let a = ex.pick("first", 256) as u8;
        let mut out = String::new();
        for b in 0..=255u8 {
            if a != 0xDE && b % 37 != 0 {
                continue;
            }
            let mut d = good_header();
            d.extend([7; 30]);
            d[0] = a;
            d[1] = b;
            out += &feed_all(ex, &d, b"0123456789")?;
        }
        Ok(out)
    }));
    for v in 1..=5u8 {
        for a in ALGS {
            for m in [Mode::Stream, Mode::Memory] {
                let mk = move |slots: usize| {
                    let ks = [Kdf::B5, Kdf::A2, Kdf::B4, Kdf::A1];
                    let pws: Vec<(Vec<u8>, Kdf)> = (0..slots).map(|i| (if i == 0 { b"pw".to_vec() } else { format!("x{i}").into_bytes() }, ks[i])).collect();
                    make(v, a, m, &pws, &bytes(4, 70), 12)
                };
                let nslots = if v == 5 { 4 } else { 1 };
                jobs.push(Job::new(format!("truncated V{v} {a:?} {m:?}"), 0, move |ex| {
                    let made = mk(1 + ex.pick("slots", nslots) as usize);
                    let f = made.file();
                    let n = ex.pick("length", f.len() as u32 + 1) as usize;
                    feed_all(ex, &f[..n], &made.payload)
                }));
                jobs.push(Job::new(format!("substituted bytes V{v} {a:?} {m:?}"), 0, move |ex| {
                    let made = mk(if v == 5 { 2 } else { 1 });
                    let mut f = made.file();
                    let i = ex.pick("byte", f.len() as u32) as usize;
                    let mut out = String::new();
                    for x in [0u8, 1, 2, 3, 4, 5, 0x7F, 0x80, 0xA0, 0xB6, 0xDE, 0xDF, 0xFF] {
                        let old = f[i];
                        f[i] = x;
                        out += &feed_all(ex, &f, &made.payload)?;
                        f[i] = old;
                    }
                    Ok(out)
                }));
                jobs.push(Job::new(format!("filled V{v} {a:?} {m:?}"), 0, move |ex| {
                    // everything after the tags is one byte value
                    let x = ex.pick("value", 256) as u8;
                    let len = [header_len(v), header_len(v) + 15, header_len(v) + 16, header_len(v) + 17, 2000][ex.pick("length", 5) as usize];
                    let mut f = mk(1).header[..6].to_vec();
                    f.resize(len, x);
                    feed_all(ex, &f, &vec![x; 100])
                }));
            }
        }
    }
    jobs.push(Job::new("slot identifiers", 0, move |ex| {
        let a = ALGS[ex.pick("alg", if thorough { 3 } else { 1 }) as usize];
        let slot = ex.pick("slot", 4) as usize;
        let b0 = [0u8, 0xDE, 0xDF, 0xE0, 0xFF][ex.pick("first byte", 5) as usize];
        let made = make(5, a, Mode::Stream, &[(b"pw".to_vec(), Kdf::B5), (b"b".to_vec(), Kdf::A1), (b"c".to_vec(), Kdf::B4), (b"d".to_vec(), Kdf::A3)], b"x", 9);
        let mut out = String::new();
        for b1 in 0..=255u8 {
            let mut f = made.file();
            f[32 + 96 * slot] = b0;
            f[33 + 96 * slot] = b1;
            out += &feed_all(ex, &f, &made.payload)?;
        }
        Ok(out)
    }));
    jobs.push(Job::new("every pattern of used and unused slots", 0, |ex| {
        let made = make(5, Alg::Aes, Mode::Stream, &[(b"pw".to_vec(), Kdf::B5), (b"b".to_vec(), Kdf::A1), (b"c".to_vec(), Kdf::B4), (b"d".to_vec(), Kdf::A3)], b"x", 9);
        let mut f = made.file();
        for s in 0..4 {
            match ex.pick("slot", 4) {
                0 => {}
                1 => f[32 + 96 * s..128 + 96 * s].fill(0),
                2 => f[32 + 96 * s] = 0,
                _ => f[32 + 96 * s..128 + 96 * s].fill(0xDF),
            }
        }
        feed_all(ex, &f, &made.payload)
    }));
    jobs
}

pub fn c22(thorough: bool) -> Vec<Job> {
    let mut sz = sizes(thorough);
    sz.extend([3, 1023, 1024, 1025, 2047, 2048, 2049, 3072, 8191, 8192, 8193, 16384, 16385, 31 * 1024, 131072, 131073]);
    let mut jobs = vec![];
    for p in [Policy::Full, Policy::AtMost(1), Policy::AtMost(1023), Policy::AtMost(65536), Policy::AtMost(BLOCK - 1), Policy::Interrupted(BLOCK), Policy::Interrupted(4096), Policy::Ragged] {
        let sz = sz.clone();
        jobs.push(Job::new(format!("sizes, reads {p:?}"), 0, move |ex| {
            let n = sz[ex.pick("size", sz.len() as u32) as usize];
            if n > 70_000 && matches!(p, Policy::AtMost(1)) {
                return Ok("too slow with single-byte reads".into());
            }
            let pos = [0u64, 1, n as u64 / 2, n as u64, n as u64 + 9][ex.pick("initial position", 5) as usize];
            let data = bytes(n as u64 + 1, n);
            ex.horizon(10_000_000);
            let nd = node(data.clone());
            let f = file(ex, &nd, "in", p);
            f.borrow_mut().pos = pos;
            let r = hash(f)?;
            let Ok(r) = r else { viol!("hashing {n} bytes failed") };
            let want = blake3::hash(&data).to_hex().to_string();
            ensure!(r == want, "hash of {n} bytes (reader at {pos}, reads {p:?}) is {r} instead of {want}");
            Ok(r)
        }));
    }
    jobs.push(Job::new("known digests", 0, |ex| {
        let known = [
            (vec![], "af1349b9f5f9a1a6a0404dea36dcc9499bcb25c9adc112b7cc9a93cae41f3262"),
            (b"abc".to_vec(), "6437b3ac38465133ffb63b75273a8db548c558465d79db03fd359c6cd5bd9d85"),
            ((0..1025).map(|i| (i % 251) as u8).collect(), "d00278ae47eb27b34faecf67b4fe263f82d5412916c1ffd97c8cb7fb814b8444"),
        ];
        let (d, want) = &known[ex.pick("input", 3) as usize];
        let r = hash(file(ex, &node(d.clone()), "in", Policy::Full))?;
        ensure!(r.as_ref().ok().map(String::as_str) == Some(*want), "hash of a known input is {r:?} instead of {want}");
        Ok((*want).into())
    }));
    // every pattern of reads for small contents and for contents of a few blocks
    for n in [0usize, 1, 5, 1030, BLOCK + 3, 2 * BLOCK] {
        jobs.push(Job::new(format!("read patterns {n}"), if thorough { 4 } else { 3 }, move |ex| {
            let data = bytes(n as u64 + 3, n);
            let r = hash(file(ex, &node(data.clone()), "in", Policy::Choose))?;
            let Ok(r) = r else { return Ok("error".into()) };
            ensure!(r == blake3::hash(&data).to_hex().to_string(), "hash depends on how the file is read");
            Ok(r)
        }));
    }
    // a sequence of files
    jobs.push(Job::new("several files", 0, |ex| {
        let mut out = String::new();
        for i in 0..3 {
            let n = [0usize, 1, 100, BLOCK, BLOCK + 1][ex.pick("size", 5) as usize];
            let data = bytes(n as u64 + i, n);
            let r = hash(file(ex, &node(data.clone()), "in", Policy::Full))?;
            ensure!(r.as_ref().ok() == Some(&blake3::hash(&data).to_hex().to_string()), "the hash of one file depends on those before it");
            out += &r.unwrap()[..8];
        }
        Ok(out)
    }));
    jobs
}

fn words() -> Vec<String> {
    std::fs::read_to_string(concat!(env!("MC_REPO"), "/crates/volaris-crypto/src/wordlist.lst"))
        .unwrap_or_default()
        .lines()
        .map(str::to_string)
        .collect()
}

/// a draw that selects index k out of n, whether drawn as 32 or 64 bits
fn draw(k: usize, n: usize) -> u64 {
    (((4 * k as u128 + 1) << 62) / n as u128) as u64
}

pub fn c23(thorough: bool) -> Vec<Job> {
    use std::collections::HashSet;
    use std::sync::{Arc, Mutex};
    let list = Arc::new(words());
    let mut jobs = vec![];
    let gen = |n: i32, script: Vec<u64>| -> Res<String> {
        mctape::install(mctape::Mode::Script(script, 42));
        let r = sut(&format!("generating {n} words"), || corecrypto::key::generate_passphrase(&n).expose().clone());
        mctape::uninstall();
        r
    };
    let set: Arc<HashSet<String>> = Arc::new(list.iter().cloned().collect());
    let check = {
        let set = set.clone();
        move |n: i32, s: &str| -> Res<Vec<String>> {
            let ws: Vec<String> = if s.is_empty() { vec![] } else { s.split('-').map(str::to_string).collect() };
            // words of the list may contain hyphens themselves: split greedily along the list
            let ws = if ws.iter().all(|w| set.contains(w)) { ws } else { regroup(&ws, &set) };
            ensure!(ws.iter().all(|w| set.contains(w)), "{s:?} contains something that isn't a word of the list");
            ensure!(ws.len() == n.max(0) as usize, "{n} words were requested, {s:?} has {}", ws.len());
            ensure!(s == ws.join("-"), "{s:?} isn't its words joined by single hyphens");
            Ok(ws)
        }
    };
    let lens: Vec<i32> = if thorough { vec![1, 2, 3, 4, 7, 12] } else { vec![1, 2, 3, 7] };
    for n in lens {
        for at in 0..n as usize {
            let seen: Arc<Mutex<HashSet<String>>> = Default::default();
            let (list, check) = (list.clone(), check.clone());
            jobs.push(Job::new(format!("every word at position {at} of {n}"), 0, move |ex| {
                let total = list.len();
                ensure!(total > 1000, "the shipped word list can't be found");
                let mut base: Vec<u64> = (0..n as usize).map(|i| draw((i * 1009 + 17) % total, total)).collect();
                let plain = check(n, &gen(n, base.clone())?)?;
                seen.lock().unwrap().clear();
                for k in 0..total {
                    base[at] = draw(k, total);
                    let ws = check(n, &gen(n, base.clone())?)?;
                    for i in 0..n as usize {
                        ensure!(i == at || ws[i] == plain[i], "the word at position {i} depends on the draw for position {at}");
                    }
                    seen.lock().unwrap().insert(ws[at].clone());
                }
                let missing: Vec<&String> = list.iter().filter(|w| !seen.lock().unwrap().contains(*w)).take(5).collect();
                ensure!(missing.is_empty(), "words {missing:?} can never be chosen at position {at} of {n}");
                let _ = ex;
                Ok(format!("{total} words"))
            }));
        }
    }
    // extreme draws, in every combination
    for n in [1, 2, 3, 4] {
        let check = check.clone();
        let total = list.len().max(1);
        jobs.push(Job::new(format!("extreme draws for {n} words"), 0, move |ex| {
            let lim = u64::MAX / total as u64;
            let menu = [0u64, 1, u64::MAX, u64::MAX - 1, u64::MAX - 7776, draw(total - 1, total), lim, lim * (total as u64 - 1), (1 << 32) - 1, 1 << 32, 1 << 63, u64::MAX << 32];
            let script: Vec<u64> = (0..n).map(|_| menu[ex.pick("draw", 12) as usize]).collect();
            let ws = check(n, &gen(n, script)?)?;
            Ok(ws.join(" "))
        }));
    }
    // word counts
    {
        let check = check.clone();
        jobs.push(Job::new("word counts", 0, move |ex| {
            let counts: Vec<i32> = (-3..=40).chain([64, 100, 127, 128, 255, 256, 257, 1000, i32::MIN, -1000]).collect();
            let n = counts[ex.pick("count", counts.len() as u32) as usize];
            let ws = check(n, &gen(n, vec![])?)?;
            Ok(format!("{n}: {}", ws.len()))
        }));
    }
    jobs
}

fn regroup(parts: &[String], set: &std::collections::HashSet<String>) -> Vec<String> {
    // dynamic programming over the parts: any split into words of the list
    let n = parts.len();
    let mut best: Vec<Option<Vec<String>>> = vec![None; n + 1];
    best[0] = Some(vec![]);
    for i in 0..n {
        let Some(b) = best[i].clone() else { continue };
        for j in i + 1..=n.min(i + 4) {
            let w = parts[i..j].join("-");
            if set.contains(&w) && best[j].is_none() {
                let mut x = b.clone();
                x.push(w);
                best[j] = Some(x);
            }
        }
    }
    best[n].clone().unwrap_or_else(|| parts.to_vec())
}

pub fn c26(thorough: bool) -> Vec<Job> {
    let mut jobs = vec![];
    for a in ALGS {
        jobs.push(Job::new(format!("one-shot ciphers {a:?}"), 0, move |ex| {
            use corecrypto::{cipher::Ciphers, protected::Protected, Payload};
            let n = [0usize, 1, 15, 16, 17, 31, 32, 33, 100, 4096][ex.pick("length", 10) as usize];
            let aad = [&b""[..], b"a", &[7; 16], &[9; 416]][ex.pick("additional data", 4) as usize];
            let key: [u8; 32] = bytes(6, 32).try_into().unwrap();
            let nonce = bytes(3, a.nonce_len());
            let msg = bytes(n as u64, n);
            let new = |k: &[u8; 32]| Ciphers::initialize(Protected::new(*k), &alg(a)).ok().unwrap();
            let want = a.seal(&key, &nonce, aad, &msg);
            let c = new(&key);
            for _ in 0..2 {
                // it has no state
                let got = sut("encrypt", || c.encrypt(&nonce, Payload { aad, msg: &msg }))?;
                ensure!(got.as_ref().ok() == Some(&want), "{n} bytes aren't sealed as they should be");
                let mut b = msg.clone();
                let r = sut("encrypt_in_place", || c.encrypt_in_place(&nonce, aad, &mut b))?;
                ensure!(r.is_ok() && b == want, "{n} bytes sealed in place differ from what is sealed otherwise");
                let got = sut("decrypt", || c.decrypt(&nonce, Payload { aad, msg: &want }))?;
                ensure!(got.as_ref().ok() == Some(&msg), "{n} sealed bytes aren't opened");
            }
            if aad.is_empty() {
                let got = sut("encrypt", || c.encrypt(&nonce, msg.as_slice()))?;
                ensure!(got.as_ref().ok() == Some(&want), "{n} bytes without additional data aren't sealed as they should be");
                let got = sut("decrypt", || c.decrypt(&nonce, want.as_slice()))?;
                ensure!(got.as_ref().ok() == Some(&msg), "{n} sealed bytes without additional data aren't opened");
            }
            // nothing else opens it
            let no = |what: &str, i: usize, c: &Ciphers, nonce: &[u8], aad: &[u8], msg: &[u8]| -> Res<()> {
                let r = sut("decrypt", || c.decrypt(nonce, Payload { aad, msg }))?;
                ensure!(r.is_err(), "{n} sealed bytes are opened although bit {i} of the {what} differs");
                Ok(())
            };
            let flip = |d: &[u8], i: usize| {
                let mut d = d.to_vec();
                d[i / 8] ^= 1 << (i % 8);
                d
            };
            let step = if want.len() > 200 { 131 } else { 1 };
            for i in (0..8 * want.len()).step_by(step) {
                no("content", i, &c, &nonce, aad, &flip(&want, i))?;
            }
            for i in 0..8 * nonce.len() {
                no("nonce", i, &c, &flip(&nonce, i), aad, &want)?;
            }
            for i in (0..8 * aad.len()).step_by(if aad.len() > 100 { 7 } else { 1 }) {
                no("additional data", i, &c, &nonce, &flip(aad, i), &want)?;
            }
            for i in 0..256 {
                no("key", i, &new(&flip(&key, i).try_into().unwrap()), &nonce, aad, &want)?;
            }
            for l in 0..want.len().min(40) {
                no("length", l, &c, &nonce, aad, &want[..l])?;
            }
            no("length", 1, &c, &nonce, aad, &[&want[..], &[0]].concat())?;
            no("additional data's length", 1, &c, &nonce, &[aad, &[0]].concat(), &want)?;
            Ok(format!("{n} {}", aad.len()))
        }));
        let key = [5u8; 32];
        let nonce = bytes(1, a.nonce_len() - 4);
        // nonce lengths
        let n2 = nonce.clone();
        jobs.push(Job::new(format!("nonce lengths {a:?}"), 0, move |ex| {
            let len = ex.pick("length", 65) as usize;
            let nonce = bytes(2, len);
            let p = || corecrypto::protected::Protected::new(key);
            let e = sut("EncryptionStreams::initialize", || EncryptionStreams::initialize(p(), &nonce, &alg(a)).is_ok())?;
            let d = sut("DecryptionStreams::initialize", || DecryptionStreams::initialize(p(), &nonce, &alg(a)).is_ok())?;
            ensure!(e == (len == n2.len()), "an encryption stream is {} with a nonce of {len} bytes", if e { "accepted" } else { "refused" });
            ensure!(d == (len == n2.len()), "a decryption stream is {} with a nonce of {len} bytes", if d { "accepted" } else { "refused" });
            Ok(format!("{len} {e}"))
        }));
        let total = if thorough { 5 } else { 4 };
        for k in 1..=3u32 {
            let nonce = nonce.clone();
            jobs.push(Job::new(format!("sequences of {k} blocks {a:?}"), 0, move |ex| {
                let p = || corecrypto::protected::Protected::new(key);
                let msgs: Vec<Vec<u8>> = (0..k).map(|i| bytes(u64::from(i), [0usize, 1, 30][i as usize % 3] + usize::from(k == 1))).collect();
                let aad = b"aad";
                let mut e = EncryptionStreams::initialize(p(), &nonce, &alg(a)).ok().unwrap();
                let mut blocks = vec![];
                for m in &msgs[..msgs.len() - 1] {
                    blocks.push(sut("encrypt_next", || e.encrypt_next(corecrypto::Payload { aad, msg: m }))?.unwrap());
                }
                blocks.push(sut("encrypt_last", || e.encrypt_last(corecrypto::Payload { aad, msg: msgs.last().unwrap() }))?.unwrap());
                for (i, b) in blocks.iter().enumerate() {
                    let last = i + 1 == blocks.len();
                    let want = a.seal(&key, &a.block_nonce(&nonce, i as u32, last), aad, &msgs[i]);
                    ensure!(*b == want, "block {i} of {k} isn't sealed with its own counter and marker");
                }
                // any sequence of presentations, the final one marked last or not
                let len = 1 + ex.pick("presented", total);
                let which: Vec<usize> = (0..len).map(|_| ex.pick("block", k) as usize).collect();
                let marked = ex.pick("marked last", 2) == 1;
                let mut d = Some(DecryptionStreams::initialize(p(), &nonce, &alg(a)).ok().unwrap());
                let mut ok = true;
                let mut opened = vec![];
                for (j, b) in which.iter().enumerate() {
                    let pl = corecrypto::Payload { aad, msg: &blocks[*b] };
                    let r = if j + 1 == which.len() && marked {
                        let d = d.take().unwrap();
                        sut("decrypt_last", || d.decrypt_last(pl))?
                    } else {
                        sut("decrypt_next", || d.as_mut().unwrap().decrypt_next(pl))?
                    };
                    match r {
                        Ok(x) => opened.push(x),
                        Err(_) => {
                            ok = false;
                            break;
                        }
                    }
                }
                // accepted prefixes are exactly those of the original sequence
                let mut want = 0;
                for (j, b) in which.iter().enumerate() {
                    let is_last = j + 1 == which.len() && marked;
                    if *b == j && is_last == (j + 1 == k as usize) {
                        want += 1;
                    } else {
                        break;
                    }
                }
                ensure!(opened.len() == want, "blocks {which:?} of {k} (marked last: {marked}): {} accepted instead of {want}", opened.len());
                ensure!(ok == (want == which.len()), "inconsistent acceptance");
                ensure!(opened.iter().zip(&msgs).all(|(x, y)| x == y), "a block opened to other bytes");
                Ok(format!("{which:?} {marked} {want}"))
            }));
        }
        let nonce = nonce.clone();
        jobs.push(Job::new(format!("other key, nonce or data {a:?}"), 0, move |ex| {
            let p = |k| corecrypto::protected::Protected::new(k);
            let last = ex.pick("last", 2) == 1;
            let mut e = EncryptionStreams::initialize(p(key), &nonce, &alg(a)).ok().unwrap();
            let pl = |aad: &'static [u8]| corecrypto::Payload { aad, msg: b"message" };
            let block = if last { e.encrypt_last(pl(b"aad")) } else { e.encrypt_next(pl(b"aad")) }.unwrap();
            let (mut k2, mut n2, mut aad2, mut b2) = (key, nonce.clone(), b"aad".to_vec(), block.clone());
            let what = ex.pick("changed", 5);
            match what {
                0 => k2[ex.pick("byte", 32) as usize] ^= 1 << ex.pick("bit", 8),
                1 => n2[ex.pick("byte", nonce.len() as u32) as usize] ^= 1 << ex.pick("bit", 8),
                2 => match ex.pick("data", 5) {
                    0 => aad2[0] ^= 1,
                    1 => aad2[2] ^= 0x80,
                    2 => aad2.push(0),
                    3 => aad2.clear(),
                    _ => aad2.truncate(2),
                },
                3 => b2[ex.pick("byte", block.len() as u32) as usize] ^= 1 << ex.pick("bit", 8),
                _ => {}
            }
            let mut d = DecryptionStreams::initialize(p(k2), &n2, &alg(a)).ok().unwrap();
            let pl = corecrypto::Payload { aad: &aad2, msg: &b2 };
            let r = sut("decrypt", || if last { d.decrypt_last(pl) } else { d.decrypt_next(pl) })?;
            if what == 4 {
                ensure!(r.as_deref() == Ok(b"message"), "an unchanged block is rejected");
            } else {
                ensure!(r.is_err(), "a block is accepted with another {}", ["key", "nonce", "additional data", "content"][what as usize]);
            }
            Ok(format!("{what}"))
        }));
    }
    jobs
}

pub fn c27(thorough: bool) -> Vec<Job> {
    let mut jobs = vec![];
    let derive = |ha: HashingAlgorithm, p: &[u8], s: &[u8; 16]| -> Res<Option<[u8; 32]>> {
        sut(&format!("hashing with {ha}"), || ha.hash(pw(p), s).ok().map(|k| *k.expose()))
    };
    jobs.push(Job::new("every pair of algorithm and parameter version", 0, move |ex| {
        let ids: Vec<i32> = (-10..=300).chain([512 + 3, 1024 + 4, 65536 + 5, 65536 + 1, i32::MAX, i32::MIN, i32::MIN + 3, (1 << 31 >> 1) + 5]).collect();
        let i = ids[ex.pick("id", ids.len() as u32) as usize];
        let salt = [9u8; 16];
        for (ha, known) in [(HashingAlgorithm::Argon2id(i), 1..=3), (HashingAlgorithm::Blake3Balloon(i), 4..=5)] {
            let r = derive(ha, b"password", &salt)?;
            ensure!(r.is_some() == known.contains(&i), "{ha} is {}", if r.is_some() { "accepted" } else { "refused" });
            if let Some(k) = r {
                let want = KDFS.into_iter().find(|k| kdf(*k) == ha).unwrap().derive(b"password", &salt);
                ensure!(k == want, "{ha} doesn't use its published parameters");
            }
        }
        Ok(format!("{i}"))
    }));
    jobs.push(Job::new("header versions", 0, move |ex| {
        let v = 1 + ex.pick("version", 5) as u8;
        let salt = [3u8; 16];
        let a = sut("argon2id_hash", || corecrypto::key::argon2id_hash(pw(b"x"), &salt, &version(v)).ok().map(|k| *k.expose()))?;
        let b = sut("balloon_hash", || corecrypto::key::balloon_hash(pw(b"x"), &salt, &version(v)).ok().map(|k| *k.expose()))?;
        let want_a = [None, Some(Kdf::A1), Some(Kdf::A2), Some(Kdf::A3), None, None][v as usize].map(|k| k.derive(b"x", &salt));
        let want_b = [None, None, None, None, Some(Kdf::B4), Some(Kdf::B5)][v as usize].map(|k| k.derive(b"x", &salt));
        ensure!(a == want_a, "argon2id for V{v} isn't what the format says");
        ensure!(b == want_b, "balloon for V{v} isn't what the format says");
        Ok(format!("{v}"))
    }));
    for k in KDFS {
        jobs.push(Job::new(format!("passwords {k:?}"), 0, move |ex| {
            let pws = passwords();
            let p = &pws[ex.pick("password", pws.len() as u32) as usize];
            let salt: [u8; 16] = bytes(p.len() as u64, 16).try_into().unwrap();
            let base = derive(kdf(k), p, &salt)?;
            ensure!(base == Some(k.derive(p, &salt)), "{k:?} with {} isn't the published function", show(p));
            ensure!(derive(kdf(k), p, &salt)? == base, "{k:?} gives two keys for one input");
            for (what, q) in neighbours(p) {
                let r = derive(kdf(k), &q, &salt)?;
                ensure!(r == Some(k.derive(&q, &salt)), "{k:?} isn't the published function for {what}");
                ensure!(r != base, "{k:?} gives the same key for {} and {what}", show(p));
            }
            for i in 0..16 {
                for bit in 0..8 {
                    let mut s = salt;
                    s[i] ^= 1 << bit;
                    ensure!(derive(kdf(k), p, &s)? != base, "{k:?} ignores bit {bit} of byte {i} of the salt");
                }
            }
            Ok(format!("{:02x?}", &base.unwrap()[..4]))
        }));
        // the real functions: the cost parameters have to be exactly the published ones
        jobs.push(Job::new(format!("real function {k:?}"), 0, move |ex| {
            let cases: &[&[u8]] = if thorough { &[b"password", b"", b"a\0b", &[0xff; 200]] } else { &[b"password"] };
            let p = cases[ex.pick("password", cases.len() as u32) as usize];
            let salt: [u8; 16] = *b"0123456789abcdef";
            let (got, want) = mctape::with_real_kdf(|| (derive(kdf(k), p, &salt), k.derive(p, &salt)));
            let got = got?;
            ensure!(got == Some(want), "{k:?} (real) isn't the published function");
            if p == b"password" {
                let hex: String = got.unwrap().iter().map(|b| format!("{b:02x}")).collect();
                let fixed = golden_kdf(k);
                ensure!(fixed.is_empty() || hex == fixed, "{k:?} of a fixed password and salt is {hex} instead of {fixed}");
                return Ok(hex);
            }
            Ok(String::new())
        }));
    }
    // several slots with different algorithms: each uses its own
    jobs.push(Job::new("recorded algorithm", 0, |ex| {
        let k0 = KDFS[ex.pick("first", 5) as usize];
        let k1 = KDFS[ex.pick("second", 5) as usize];
        let a = ALGS[ex.pick("alg", 3) as usize];
        let made = make(5, a, Mode::Stream, &[(b"one".to_vec(), k0), (b"two".to_vec(), k1)], b"text", 4);
        for p in [b"one", b"two"] {
            let (r, out) = decrypt_bytes(ex, None, &made.file(), p)?;
            ensure!(r.is_ok() && out == b"text", "slots {k0:?} and {k1:?}: a password isn't derived with the algorithm of its slot");
        }
        // the same bytes under another recorded algorithm don't open
        let mut f = made.file();
        let other = KDFS[ex.pick("claimed", 5) as usize];
        f[33] = other.id();
        let r = decrypt_bytes(ex, None, &f, b"one")?.0;
        ensure!(r.is_ok() == (other == k0), "a slot of {k0:?} recorded as {other:?}: {r:?}");
        Ok(format!("{k0:?} {k1:?} {other:?}"))
    }));
    jobs
}

/// keys for "password" and the salt "0123456789abcdef", computed once
fn golden_kdf(k: Kdf) -> &'static str {
    match k {
        Kdf::A1 => "e1a16e77126fa6120f1b4cb2f5110016506af418a8b434d2bc59bcc33944dd90",
        Kdf::A2 => "9f1056b177f4f740c56dc444b649c724bde2a45dcede61361b8b74f10dc8d42f",
        Kdf::A3 => "3ba533374dea28102bcbdeba3a2cfd39279ecb149be3cb330efb8ca48b7e76ce",
        Kdf::B4 => "406ef44d47f81e036a6a89f866c22afd3116c6c9d216d3f21a261e4a9af45000",
        Kdf::B5 => "1ad580892f5545de8fdafed26478b19cd513c08ce987cd80c58f9c912a5212aa",
    }
}

/// The secrets of one encryption, as the format shows them.
#[derive(Clone, PartialEq, Debug)]
struct Secrets {
    master: Vec<u8>,
    nonce: Vec<u8>,
    salt: Vec<u8>,
    slot_nonce: Vec<u8>,
}

fn secrets_of(file: &[u8], password: &[u8]) -> Res<Secrets> {
    let Some(h) = Hdr::parse(file) else { viol!("not a valid header") };
    let Some(m) = h.master(password) else { viol!("the password doesn't open the header") };
    let i = h.slot_of(password).unwrap();
    Ok(Secrets { master: m.to_vec(), nonce: h.nonce.clone(), salt: h.slots[i].salt.to_vec(), slot_nonce: h.slots[i].nonce.clone() })
}

impl Secrets {
    fn all(&self) -> [(&'static str, &Vec<u8>); 4] {
        [("master key", &self.master), ("payload nonce", &self.nonce), ("salt", &self.salt), ("slot nonce", &self.slot_nonce)]
    }
}

/// Runs in a fresh thread, whose random generators start from the given entropy.
fn with_entropy<T: Send + 'static>(seed: Option<u64>, f: impl FnOnce() -> T + Send + 'static) -> T {
    std::thread::spawn(move || {
        if let Some(s) = seed {
            mctape::install(mctape::Mode::Entropy(s));
        }
        let r = f();
        mctape::uninstall();
        r
    })
    .join()
    .unwrap_or_else(|p| std::panic::resume_unwind(p))
}

/// One encryption, then an addition and a change of a key: the secrets each of them drew.
fn draw_secrets(v: u8, a: Alg, k: Kdf, text: Vec<u8>, password: &'static [u8], keyop: u32) -> Res<Vec<(&'static str, Vec<u8>)>> {
    let ex = Ex::new(vec![]);
    let (r, f, _) = encrypt_bytes(&ex, &text, password, header_type(v, a, Mode::Stream), kdf(k), false)?;
    ensure!(r.is_ok(), "encrypt failed");
    let s = secrets_of(&f, password)?;
    let mut out: Vec<(&'static str, Vec<u8>)> = s.all().into_iter().map(|(n, x)| (n, x.clone())).collect();
    if v == 5 && keyop > 0 {
        let n = node(f);
        let op = if keyop == 1 {
            KeyOp::Add { old: password.to_vec(), new: b"second".to_vec(), kdf: k }
        } else {
            KeyOp::Change { old: password.to_vec(), new: b"second".to_vec(), kdf: k }
        };
        ensure!(op.run(&file(&ex, &n, "f", Policy::Full))?.is_ok(), "{} failed", op.name());
        let s2 = secrets_of(&n.lock().unwrap().data, b"second")?;
        ensure!(s2.master == s.master && s2.nonce == s.nonce, "the master key or payload nonce changed");
        out.push(("salt of the new slot", s2.salt));
        out.push(("nonce of the new slot", s2.slot_nonce));
    }
    Ok(out)
}

pub fn c09(thorough: bool) -> Vec<Job> {
    let mut jobs = vec![];
    let seeds: u64 = if thorough { 256 } else { 64 };
    for (v, k) in combos() {
        for a in ALGS {
            for keyop in 0..=(if v == 5 { 2u32 } else { 0 }) {
                if keyop > 0 && !thorough && k != Kdf::B5 && k != Kdf::A3 {
                    continue;
                }
                jobs.push(Job::new(format!("entropy V{v} {k:?} {a:?} keyop={keyop}"), 0, move |_| {
                    // for every entropy: the same text and password give other secrets, and every
                    // bit of every secret follows the entropy
                    let mut all = vec![];
                    for s in 0..seeds {
                        all.push(with_entropy(Some(s + 1), move || draw_secrets(v, a, k, b"same text".to_vec(), b"same password", keyop))?);
                    }
                    let again = with_entropy(Some(1), move || draw_secrets(v, a, k, b"same text".to_vec(), b"same password", keyop))?;
                    ensure!(again == all[0], "the secrets aren't determined by the system's random source alone (same entropy, other secrets)");
                    distinct(&all)?;
                    for i in 0..all[0].len() {
                        let name = all[0][i].0;
                        for b in 0..all[0][i].1.len() {
                            let or = all.iter().fold(0u8, |x, s| x | s[i].1[b]);
                            let and = all.iter().fold(0xffu8, |x, s| x & s[i].1[b]);
                            ensure!(or == 0xff && and == 0, "byte {b} of the {name} doesn't depend on the random source");
                        }
                        // no byte of one secret is a copy of another's
                        for j in 0..all[0].len() {
                            let (x, y) = (&all[0][i].1, &all[0][j].1);
                            let n = x.len().min(y.len());
                            ensure!(i == j || x[..n.min(8)] != y[..n.min(8)], "the {name} and the {} coincide", all[0][j].0);
                        }
                    }
                    Ok(format!("{seeds}"))
                }));
            }
        }
    }
    // histories on one thread: nothing repeats
    jobs.push(Job::new("histories", 0, move |ex| {
        let ops: Vec<u32> = (0..4).map(|_| ex.pick("operation", 4)).collect();
        let a = ALGS[ex.pick("alg", 3) as usize];
        let seed = 1000 + u64::from(ex.pick("entropy", 3));
        let o2 = ops.clone();
        let all = with_entropy((seed != 1002).then_some(seed), move || -> Res<Vec<Vec<(&'static str, Vec<u8>)>>> {
            let mut all = vec![];
            for o in o2 {
                let x = match o {
                    0 => draw_secrets(5, a, Kdf::B5, b"text".to_vec(), b"pw", 0)?,
                    1 => draw_secrets(5, a, Kdf::B5, b"text".to_vec(), b"pw", 1)?,
                    2 => draw_secrets(5, a, Kdf::A1, b"other".to_vec(), b"pw", 2)?,
                    _ => draw_secrets(4, a, Kdf::B4, vec![], b"pw", 0)?,
                };
                all.push(x);
            }
            Ok(all)
        })?;
        distinct(&all)?;
        Ok(format!("{ops:?}"))
    }));
    // a history on one file: slots never share a salt or nonce, and one change never keeps them
    jobs.push(Job::new("histories of one file", 0, move |ex| {
        let a = ALGS[ex.pick("alg", 3) as usize];
        let ops: Vec<u32> = (0..4).map(|_| ex.pick("operation", 3)).collect();
        let same = ex.pick("same password", 2) == 1;
        let e2 = Ex::new(vec![]);
        let ops2 = ops.clone();
        with_entropy(Some(5), move || -> Res<()> {
            let (r, f, _) = encrypt_bytes(&e2, b"t", b"pw", header_type(5, a, Mode::Stream), kdf(Kdf::B5), false)?;
            ensure!(r.is_ok(), "encrypt failed");
            let n = node(f);
            let mut seen: Vec<(Vec<u8>, Vec<u8>)> = vec![];
            let mut current = b"pw".to_vec();
            let h = Hdr::parse(&n.lock().unwrap().data).unwrap();
            seen.push((h.slots[0].salt.to_vec(), h.slots[0].nonce.clone()));
            for (i, o) in ops2.iter().enumerate() {
                let new = if same { current.clone() } else { format!("pw{i}").into_bytes() };
                let before = Hdr::parse(&n.lock().unwrap().data).unwrap();
                let op = match o {
                    0 => KeyOp::Add { old: current.clone(), new: new.clone(), kdf: Kdf::B5 },
                    1 => KeyOp::Change { old: current.clone(), new: new.clone(), kdf: Kdf::B5 },
                    _ => KeyOp::Change { old: current.clone(), new: new.clone(), kdf: Kdf::A2 },
                };
                if op.run(&file(&e2, &n, "f", Policy::Full))?.is_err() {
                    continue;
                }
                current = new;
                let Some(after) = Hdr::parse(&n.lock().unwrap().data) else { viol!("invalid header") };
                let fresh: Vec<_> = after.slots.iter().filter(|s| !before.slots.contains(s)).collect();
                ensure!(fresh.len() == 1, "{} slots are new after {}", fresh.len(), op.name());
                for (salt, nonce) in &seen {
                    ensure!(*salt != fresh[0].salt, "a salt is used twice ({})", op.name());
                    ensure!(*nonce != fresh[0].nonce, "a slot nonce is used twice ({})", op.name());
                }
                seen.push((fresh[0].salt.to_vec(), fresh[0].nonce.clone()));
            }
            Ok(())
        })?;
        Ok(format!("{ops:?}"))
    }));
    // the generators themselves
    jobs.push(Job::new("generators", 0, move |ex| {
        use corecrypto::primitives::{gen_master_key, gen_nonce, gen_salt};
        let a = ALGS[ex.pick("alg", 3) as usize];
        let m = [Mode::Stream, Mode::Memory][ex.pick("mode", 2) as usize];
        let get = move |s: Option<u64>| {
            with_entropy(s, move || {
                let mut v: Vec<(&'static str, Vec<u8>)> = vec![];
                for _ in 0..8 {
                    v.push(("nonce", gen_nonce(&alg(a), &mode(m))));
                    v.push(("salt", gen_salt().to_vec()));
                    v.push(("master key", gen_master_key().expose().to_vec()));
                }
                v
            })
        };
        let mut all: Vec<_> = (0..seeds).map(|s| get(Some(s + 7))).collect();
        ensure!(get(Some(7)) == all[0], "the generators aren't determined by the system's random source alone");
        all.push(get(None));
        all.push(get(None));
        distinct(&all)?;
        ensure!(all[0][0].1.len() == a.header_nonce_len(m), "a nonce has {} bytes", all[0][0].1.len());
        Ok(format!("{a:?} {m:?}"))
    }));
    jobs
}

fn distinct(all: &[Vec<(&'static str, Vec<u8>)>]) -> Res<()> {
    let mut seen = std::collections::HashMap::new();
    for (i, s) in all.iter().enumerate() {
        for (name, x) in s {
            if let Some((j, other)) = seen.insert(x.clone(), (i, *name)) {
                viol!("the {name} of run {i} is the {other} of run {j}");
            }
        }
    }
    Ok(())
}
