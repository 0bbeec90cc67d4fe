//! C25: secrets are redacted when printed, and wiped before the memory that holds them is released.

use crate::explore::{count, sut, Ex, Job, Res, Viol};
use crate::mfile::{node, MFile, Policy};
use crate::mfs::Mfs;
use crate::ops::*;
use crate::refimpl::{bytes, make, Alg, Hdr, Kdf, Mode, ALGS, BLOCK, KDFS};
use crate::spy::Watch;
use crate::{ensure, scen, viol};
use corecrypto::protected::Protected;
use corecrypto::Zeroize;
use std::cell::{Cell, RefCell};
use std::rc::Rc;
use std::sync::Arc;

const OLD: &[u8] = b"the old and secret password";
const NEW: &[u8] = b"another password, just as secret";
const BAD: &[u8] = b"a password that isn't right";

fn windows(what: &str, s: &[u8]) -> Vec<(String, Vec<u8>)> {
    let n = s.len();
    let mut v = vec![(format!("the beginning of {what}"), s[..16.min(n)].to_vec())];
    if n >= 24 {
        v.push((format!("the end of {what}"), s[n - 16..].to_vec()));
    }
    v
}

/// Everything that is secret about some headers and passwords
fn needles(headers: &[Hdr], pws: &[&[u8]]) -> Vec<(String, Vec<u8>)> {
    let mut v = vec![];
    for p in pws {
        v.extend(windows("a password", p));
    }
    let mut seen = std::collections::BTreeSet::new();
    let mut key = |what: &str, k: &[u8; 32], v: &mut Vec<_>| {
        if seen.insert(*k) {
            v.extend(windows(what, k));
        }
    };
    for h in headers {
        for p in pws {
            for s in &h.slots {
                key("a derived key", &s.kdf.derive(p, &s.salt), &mut v);
            }
            if let Some(m) = h.master(p) {
                key(if h.version < 4 { "a derived key" } else { "the master key" }, &m, &mut v);
            }
        }
    }
    v
}

/// Known findings: the block a cipher of a stream is kept in, whose last use moves it out of there unwiped; and
/// the block of an expanded AES key, which the aes crate doesn't wipe.
fn known(a: Alg, block: usize) -> Option<&'static str> {
    use aead::stream::{DecryptorLE31, EncryptorLE31};
    use std::mem::size_of;
    let (cipher, streams) = match a {
        Alg::XChaCha => {
            type C = chacha20poly1305::XChaCha20Poly1305;
            (size_of::<C>(), [size_of::<EncryptorLE31<C>>(), size_of::<DecryptorLE31<C>>()])
        }
        Alg::Aes => {
            type C = aes_gcm::Aes256Gcm;
            (size_of::<C>(), [size_of::<EncryptorLE31<C>>(), size_of::<DecryptorLE31<C>>()])
        }
        Alg::Deoxys => {
            type C = deoxys::DeoxysII256;
            (size_of::<C>(), [size_of::<EncryptorLE31<C>>(), size_of::<DecryptorLE31<C>>()])
        }
    };
    if streams.contains(&block) {
        Some("stream-state-moved-out-of-its-box")
    } else if a == Alg::Aes && block == cipher {
        Some("aes-state-not-wiped")
    } else {
        None
    }
}

fn judge(w: &Watch, what: &str, a: Option<Alg>) -> Res<()> {
    count("released_blocks", w.blocks());
    let mut found = None;
    for h in w.hits() {
        let n = &w.needles[h.needle].0;
        let msg = format!("{what} released a block of {} bytes that has {n} at {}", h.block, h.at);
        match a.and_then(|a| known(a, h.block)) {
            Some(sig) if n.contains("key") => found = Some(Viol { msg, sig: sig.into() }),
            _ => viol!("{msg}"),
        }
    }
    match found {
        Some(v) => Err(v),
        None => Ok(()),
    }
}

fn said(what: &str, text: &str, pws: &[&[u8]]) -> Res<()> {
    for p in pws {
        ensure!(!text.as_bytes().windows(p.len()).any(|w| w == *p), "{what} shows a password: {text}");
        ensure!(!text.contains(&format!("{p:?}")[1..40]), "{what} shows a password: {text}");
    }
    Ok(())
}

fn encrypting(ex: &Ex, a: Alg, v: u8, k: Kdf, detached: bool, size: usize, policy: Policy) -> Res {
    let plain = bytes(3, size);
    let ht = || header_type(v, a, Mode::Stream);
    mctape::install(mctape::Mode::Seeded(77));
    let quiet = Ex::new(vec![]);
    let (r, o, h) = encrypt_bytes(&quiet, &plain, OLD, ht(), kdf(k), detached)?;
    mctape::uninstall();
    ensure!(r.is_ok(), "encrypting failed: {r:?}");
    let Some(hdr) = Hdr::parse(if detached { &h } else { &o }) else { viol!("an invalid header was written") };
    let w = Watch::new(needles(&[hdr], &[OLD]));
    let (i, o, h) = (node(plain), node(vec![]), node(vec![]));
    let (fi, fo, fh) = (file(ex, &i, "in", policy), file(ex, &o, "out", policy), file(ex, &h, "hdr", policy));
    mctape::install(mctape::Mode::Seeded(77));
    let r = w.run(|| encrypt(&fi, &fo, detached.then_some(&fh), OLD, ht(), kdf(k)));
    mctape::uninstall();
    let r = r?;
    ex.close();
    said("the outcome", &format!("{r:?} {:?}", r.as_ref().map_err(ToString::to_string)), &[OLD])?;
    judge(&w, "encrypting", Some(a))?;
    Ok(format!("{r:?} {:?}", ex.notes()))
}

fn decrypting(ex: &Ex, a: Alg, v: u8, m: Mode, k: Kdf, right: bool, harm: &str, policy: Policy) -> Res {
    let slots = if v == 5 { vec![(NEW.to_vec(), Kdf::B5), (OLD.to_vec(), k)] } else { vec![(OLD.to_vec(), k)] };
    let mut made = make(v, a, m, &slots, &bytes(3, 40), 9);
    let hdr = Hdr::parse(&made.header).unwrap();
    match harm {
        "payload" => made.payload[7] ^= 1,
        "cut" => made.payload.truncate(9),
        _ => {}
    }
    let p = if right { OLD } else { BAD };
    let w = Watch::new(needles(&[hdr], &[OLD, BAD]));
    let (i, o, h) = (node(if harm == "detached" { made.payload.clone() } else { made.file() }), node(vec![]), node(made.header.clone()));
    let (fi, fo, fh) = (file(ex, &i, "in", policy), file(ex, &o, "out", policy), file(ex, &h, "hdr", policy));
    let r = w.run(|| decrypt((harm == "detached").then_some(&fh), &fi, &fo, p))?;
    ex.close();
    ensure!(ex.deviations() > 0 || r.is_ok() == (right && matches!(harm, "none" | "detached")), "decrypting gave {r:?}");
    said("the outcome", &format!("{r:?} {:?}", r.as_ref().map_err(ToString::to_string)), &[OLD, BAD])?;
    judge(&w, "decrypting", Some(a))?;
    Ok(format!("{r:?} {:?}", ex.notes()))
}

fn key_op(ex: &Ex, a: Alg, op: &KeyOp, slots: usize, policy: Policy) -> Res {
    let mut pws = vec![(OLD.to_vec(), Kdf::A3)];
    for i in 1..slots {
        pws.insert(i % 2, (format!("password number {i} of the file").into_bytes(), Kdf::B5));
    }
    let made = make(5, a, Mode::Stream, &pws, &bytes(3, 40), 9);
    let before = Hdr::parse(&made.header).unwrap();
    let run = |ex: &Ex, policy: Policy, w: Option<&Watch>| {
        let n = node(made.file());
        let f = RefCell::new(MFile::new(ex, &n, "file", policy));
        mctape::install(mctape::Mode::Seeded(5));
        let r = match w {
            Some(w) => w.run(|| op.run(&f)),
            None => op.run(&f),
        };
        mctape::uninstall();
        drop(f);
        let d = n.lock().unwrap().data.clone();
        r.map(|r| (r, d))
    };
    let (_, after) = run(&Ex::new(vec![]), Policy::Full, None)?;
    let Some(after) = Hdr::parse(&after) else { viol!("{} left an invalid header", op.name()) };
    let w = Watch::new(needles(&[before, after], &[OLD, NEW, BAD]));
    let (r, _) = run(ex, policy, Some(&w))?;
    ex.close();
    said("the outcome", &format!("{r:?} {:?}", r.as_ref().map_err(ToString::to_string)), &[OLD, NEW, BAD])?;
    judge(&w, &op.name(), Some(a))?;
    Ok(format!("{r:?} {:?}", ex.notes()))
}

/// A value that counts how often it has been wiped
struct Counted(Rc<Cell<u32>>, Rc<RefCell<Vec<Rc<Cell<u32>>>>>);
impl Zeroize for Counted {
    fn zeroize(&mut self) {
        self.0.set(self.0.get() + 1);
    }
}
impl Clone for Counted {
    fn clone(&self) -> Self {
        let c = Rc::new(Cell::new(0));
        self.1.borrow_mut().push(c.clone());
        Counted(c, self.1.clone())
    }
}

#[derive(Clone, Copy, Debug)]
enum Step {
    New(usize),
    Copy(usize, usize),
    Move(usize, usize),
    Drop(usize),
    Look(usize),
}

/// Histories of up to three handles: each value is wiped exactly once, when it goes away.
fn handles(seq: &[Step]) -> Res<()> {
    let all: Rc<RefCell<Vec<Rc<Cell<u32>>>>> = Rc::default();
    // handle -> index of its value
    let mut model: [Option<usize>; 3] = [None; 3];
    let mut gone = vec![];
    let mut real: [Option<Protected<Counted>>; 3] = [None, None, None];
    for s in seq {
        match *s {
            Step::New(i) => {
                gone.extend(model[i].take());
                model[i] = Some(all.borrow().len());
                let c = Rc::new(Cell::new(0));
                all.borrow_mut().push(c.clone());
                real[i] = Some(Protected::new(Counted(c, all.clone())));
            }
            Step::Copy(i, j) => {
                let c = real[i].clone();
                gone.extend(model[j].take());
                model[j] = model[i].map(|_| all.borrow().len() - 1);
                real[j] = c;
            }
            Step::Move(i, j) => {
                let m = model[i].take();
                gone.extend(model[j].take());
                model[j] = m;
                real[j] = real[i].take();
            }
            Step::Drop(i) => {
                gone.extend(model[i].take());
                real[i] = None;
            }
            Step::Look(i) => {
                if let Some(p) = &real[i] {
                    let _ = (p.expose().0.get(), p.0.get());
                }
            }
        }
        for (k, c) in all.borrow().iter().enumerate() {
            let want = u32::from(gone.contains(&k));
            ensure!(c.get() == want, "after {seq:?}, value {k} was wiped {} times instead of {want}", c.get());
        }
    }
    drop(real);
    for (k, c) in all.borrow().iter().enumerate() {
        ensure!(c.get() == 1, "after {seq:?} and the end, value {k} was wiped {} times", c.get());
    }
    Ok(())
}

fn histories(n: usize, seq: &mut Vec<Step>) -> Res<u64> {
    handles(seq)?;
    if seq.len() == n {
        return Ok(1);
    }
    let mut steps = vec![];
    for i in 0..3 {
        steps.extend([Step::New(i), Step::Drop(i), Step::Look(i)]);
        for j in 0..3 {
            if i != j {
                steps.extend([Step::Copy(i, j), Step::Move(i, j)]);
            }
        }
    }
    let mut k = 1;
    for s in steps {
        seq.push(s);
        k += histories(n, seq)?;
        seq.pop();
    }
    Ok(k)
}

/// Bytes at a place in memory after the value there has been dropped
fn remains<T>(v: T) -> Vec<u8> {
    let mut m = Box::new(std::mem::MaybeUninit::new(v));
    let p = m.as_mut_ptr();
    unsafe {
        std::ptr::drop_in_place(p);
        (0..std::mem::size_of::<T>()).map(|i| std::ptr::read_volatile(p.cast::<u8>().add(i))).collect()
    }
}

fn printing() -> Res<()> {
    #[derive(Debug)]
    #[allow(dead_code)]
    struct Nested<'a> {
        a: Protected<Vec<u8>>,
        b: Option<Protected<String>>,
        c: &'a Protected<[u8; 32]>,
        d: [Protected<u64>; 2],
    }
    let text = "SECRETSECRETSECRETSECRETSECRETSE";
    let c = Protected::new(<[u8; 32]>::try_from(text.as_bytes()).unwrap());
    let n = Nested {
        a: Protected::new(text.as_bytes().to_vec()),
        b: Some(Protected::new(text.to_string())),
        c: &c,
        d: [Protected::new(0x5345_4352_4554), Protected::new(91_625_968_981)],
    };
    let mut outs = vec![format!("{n:?}"), format!("{n:#?}"), format!("{:x?}", n), format!("{:X?}", n), format!("{:#x?}", n), format!("{n:60?}"), format!("{n:<3.1?}")];
    outs.push(format!("{:?}{:?}{:?}{:?}", n.a, n.b, n.c, n.d));
    outs.push(format!("{:?}", n.a.clone()));
    outs.push(format!("{:?}", Ok::<&Protected<Vec<u8>>, ()>(&n.a)));
    for len in [0usize, 1, 2, 9] {
        let a = Protected::new(vec![b'S'; len]);
        ensure!(format!("{a:?}") == format!("{:?}", Protected::new(vec![b'T'; 4])), "what is printed depends on the value");
    }
    for o in outs {
        for hidden in ["SECRET", "83, 69", "53, 45", "91625968981", "5345", "15559A5455", "83,\n"] {
            ensure!(!o.to_uppercase().contains(hidden), "a protected value was printed: {o}");
        }
        ensure!(o.contains("[REDACTED]"), "printed as {o}");
    }
    Ok(())
}

pub fn c25(thorough: bool) -> Vec<Job> {
    let mut jobs = vec![];
    jobs.push(Job::new("printing", 0, |_| {
        sut("printing", printing)??;
        Ok("redacted".into())
    }));
    for first in 0..3 {
        jobs.push(Job::new(format!("histories of handles, {first}"), 0, move |_| {
            let first = [Step::New(0), Step::New(1), Step::New(2)][first];
            let n = histories(if thorough { 6 } else { 5 }, &mut vec![first])?;
            count("handle_histories", n);
            Ok(format!("{n} histories"))
        }));
    }
    jobs.push(Job::new("values wiped in place", 0, |_| {
        for n in 0..=255u8 {
            let b = remains(Protected::new([n | 1; 32]));
            ensure!(b.iter().all(|x| *x == 0), "an array wasn't wiped: {b:?}");
            let b = remains(Protected::new(u64::from(n) + 1));
            ensure!(b.iter().all(|x| *x == 0), "a number wasn't wiped: {b:?}");
            let b = remains(Protected::new([n | 1; 32]).clone());
            ensure!(b.iter().all(|x| *x == 0), "a copied array wasn't wiped: {b:?}");
        }
        // on the heap, with room to spare
        for len in 16..80 {
            for spare in [0, 1, 40] {
                let secret = bytes(len as u64, len);
                let w = Watch::new(vec![("the value".into(), secret[..16].to_vec()), ("the value's end".into(), secret[len - 16..].to_vec())]);
                w.run(|| {
                    let mut v = Vec::with_capacity(len + spare);
                    v.extend_from_slice(&secret);
                    let p = Protected::new(v);
                    let q = p.clone();
                    drop(p);
                    std::hint::black_box(&q);
                });
                judge(&w, "dropping a protected vector", None)?;
                let text: String = secret.iter().map(|b| char::from(b'a' + b % 26)).collect();
                let w = Watch::new(vec![("the text".into(), text.as_bytes()[..16].to_vec())]);
                w.run(|| {
                    let p = Protected::new(text.clone());
                    std::hint::black_box((&p, &p.clone()));
                });
                judge(&w, "dropping a protected string", None)?;
            }
        }
        Ok("wiped".into())
    }));
    // the functions that take a password
    for k in KDFS {
        jobs.push(Job::new(format!("{k:?}"), 0, move |_| {
            for pw_len in [16usize, 31, 64, 200, 5000] {
                let p = bytes(pw_len as u64, pw_len);
                let salt = [7u8; 16];
                let mut n = windows("the password", &p);
                n.extend(windows("the derived key", &k.derive(&p, &salt)));
                let w = Watch::new(n);
                let r = w.run(|| sut("hash", || kdf(k).hash(Protected::new(p.clone()), &salt)))?;
                ensure!(r.is_ok(), "hashing failed");
                judge(&w, &format!("{k:?}"), None)?;
            }
            // (parameters that don't exist fail, and wipe the password too)
            for id in [0, 1, 2, 3, 4, 5, 6, 255] {
                for ha in [corecrypto::header::HashingAlgorithm::Argon2id(id), corecrypto::header::HashingAlgorithm::Blake3Balloon(id)] {
                    let w = Watch::new(windows("the password", OLD));
                    let r = w.run(|| sut("hash", || ha.hash(pw(OLD), &[7; 16])))?;
                    judge(&w, "hashing", None)?;
                    if let Err(e) = r {
                        said("the error", &format!("{e:?} {e}"), &[OLD])?;
                    }
                }
            }
            Ok("wiped".into())
        }));
    }
    let bound = if thorough { 2 } else { 1 };
    for a in ALGS {
        for (v, k) in [(4, Kdf::B4), (5, Kdf::B5), (5, Kdf::B4), (5, Kdf::A3), (5, Kdf::A1)] {
            for detached in [false, true] {
                jobs.push(Job::new(format!("{a:?} encrypt V{v} {k:?} detached={detached}"), bound, move |ex| encrypting(ex, a, v, k, detached, 50, Policy::Fault)));
            }
            jobs.push(Job::new(format!("{a:?} encrypt V{v} {k:?}, large"), 1, move |ex| encrypting(ex, a, v, k, false, 2 * BLOCK + 1, Policy::Fault)));
        }
        for m in [Mode::Stream, Mode::Memory] {
            for (v, k) in [(1, Kdf::A1), (2, Kdf::A2), (3, Kdf::A3), (4, Kdf::B4), (5, Kdf::A3), (5, Kdf::B5)] {
                for right in [true, false] {
                    for harm in ["none", "payload", "cut", "detached"] {
                        jobs.push(Job::new(format!("{a:?} decrypt V{v} {m:?} {k:?} right={right} harm={harm}"), bound, move |ex| decrypting(ex, a, v, m, k, right, harm, Policy::Fault)));
                    }
                }
            }
        }
        for slots in 1..=4usize {
            for op in [
                KeyOp::Add { old: OLD.to_vec(), new: NEW.to_vec(), kdf: Kdf::B5 },
                KeyOp::Add { old: OLD.to_vec(), new: OLD.to_vec(), kdf: Kdf::A2 },
                KeyOp::Add { old: BAD.to_vec(), new: NEW.to_vec(), kdf: Kdf::A3 },
                KeyOp::Change { old: OLD.to_vec(), new: NEW.to_vec(), kdf: Kdf::B4 },
                KeyOp::Change { old: BAD.to_vec(), new: NEW.to_vec(), kdf: Kdf::A1 },
                KeyOp::Delete { old: OLD.to_vec() },
                KeyOp::Delete { old: BAD.to_vec() },
                KeyOp::Verify { pw: OLD.to_vec() },
                KeyOp::Verify { pw: BAD.to_vec() },
            ] {
                jobs.push(Job::new(format!("{a:?} {} on {slots} keys", op.name()), bound, move |ex| key_op(ex, a, &op, slots, Policy::Fault)));
            }
        }
        // packing and unpacking, with every storage and stream call failing in turn
        jobs.push(Job::new(format!("{a:?} pack"), bound, move |ex| {
            let pass = |ex: &Ex, faults: bool, w: Option<&Watch>| {
                let mut fs = Mfs::new(ex);
                scen::put_tree(&fs, &scen::small_tree());
                fs.put_file("out", b"");
                fs.faults = faults;
                if faults {
                    fs.stream = Box::new(|_, _| Policy::Fault);
                }
                let fs = Arc::new(fs);
                mctape::install(mctape::Mode::Seeded(8));
                let go = || scen::pack(&fs, &["d"], "out", None, false, a, Kdf::B5, OLD);
                let r = match w {
                    Some(w) => w.run(go),
                    None => go(),
                };
                mctape::uninstall();
                r.map(|r| (r, fs.content("out").unwrap_or_default()))
            };
            let (r, out) = pass(&Ex::new(vec![]), false, None)?;
            ensure!(r.is_ok(), "packing failed: {r:?}");
            let Some(h) = Hdr::parse(&out) else { viol!("an invalid header was written") };
            let w = Watch::new(needles(&[h], &[OLD]));
            let (r, _) = pass(ex, true, Some(&w))?;
            ex.close();
            judge(&w, "packing", Some(a))?;
            Ok(format!("{r:?} {:?}", ex.notes()))
        }));
        for right in [true, false] {
            jobs.push(Job::new(format!("{a:?} unpack right={right}"), bound, move |ex| {
                let zip = scen::archive(&[("x/", None), ("x/f", Some(b"content"))], false);
                let made = make(5, a, Mode::Stream, &[(OLD.to_vec(), Kdf::B5)], &zip, 3);
                let h = Hdr::parse(&made.header).unwrap();
                let mut fs = Mfs::new(ex);
                fs.put_file("in", &made.file());
                fs.faults = true;
                fs.stream = Box::new(|_, _| Policy::Fault);
                let fs = Arc::new(fs);
                let w = Watch::new(needles(&[h], &[OLD, BAD]));
                let run = crate::sched::Run::start_free(ex);
                let r = w.run(|| scen::unpack(&fs, "in", None, "to", if right { OLD } else { BAD }))?;
                drop(run);
                ex.close();
                judge(&w, "unpacking", Some(a))?;
                Ok(format!("{r:?} {:?}", ex.notes()))
            }));
        }
    }
    jobs
}
