//! C10, C11, C12: key slots and header operations as transition systems; the real handlers are the
//! transition function, the states are the key slots (which password and KDF each one holds).

use crate::explore::{count, Ex, Job, Res};
use crate::mfile::{node, MFile, Op, Policy};
use crate::ops::*;
use crate::refimpl::{bytes, header_len, make, Alg, Hdr, Kdf, Made, Mode, Slot, ALGS, BLOCK};
use crate::{ensure, viol};
use std::cell::RefCell;
use std::collections::{BTreeMap, VecDeque};

type Slots = Vec<(Vec<u8>, Kdf)>;

fn show(s: &[(Vec<u8>, Kdf)]) -> String {
    s.iter().map(|(p, k)| format!("{}/{k:?}", String::from_utf8_lossy(p))).collect::<Vec<_>>().join(" ")
}

/// Which password of the alphabet each slot holds
fn read_slots(h: &Hdr, alphabet: &[Vec<u8>], master: &[u8; 32]) -> Option<Slots> {
    h.slots
        .iter()
        .map(|s| {
            let one = Hdr { slots: vec![s.clone()], ..h.clone() };
            alphabet.iter().find(|p| one.master(p).as_ref() == Some(master)).map(|p| (p.clone(), s.kdf))
        })
        .collect()
}

fn apply(ex: &Ex, file: &[u8], op: &KeyOp) -> Res<(bool, String, Vec<u8>)> {
    let n = node(file.to_vec());
    let r = op.run(&RefCell::new(MFile::new(ex, &n, "file", Policy::Full)))?;
    let data = std::mem::take(&mut n.lock().unwrap().data);
    Ok((r.is_ok(), r.err().map(|e| e.to_string()).unwrap_or_default(), data))
}

struct World {
    alphabet: Vec<Vec<u8>>,
    kdfs: Vec<Kdf>,
    alg: Alg,
    master: [u8; 32],
    plain: Vec<u8>,
    frame: bool,
}

impl World {
    fn ops(&self) -> Vec<KeyOp> {
        let mut v = vec![];
        let news = &self.alphabet[..self.alphabet.len() - 1];
        for old in &self.alphabet {
            for new in news {
                for &kdf in &self.kdfs {
                    v.push(KeyOp::Add { old: old.clone(), new: new.clone(), kdf });
                    v.push(KeyOp::Change { old: old.clone(), new: new.clone(), kdf });
                }
            }
            v.push(KeyOp::Delete { old: old.clone() });
            v.push(KeyOp::Verify { pw: old.clone() });
        }
        v
    }

    /// One transition, judged.  Returns the new slots.
    fn step(&self, ex: &Ex, file: &[u8], slots: &Slots, op: &KeyOp) -> Res<(Slots, Vec<u8>)> {
        let (ok, why, after) = apply(ex, file, op)?;
        let here = || format!("{} on a file with the keys [{}]", op.name(), show(slots));
        let has = |p: &Vec<u8>| slots.iter().any(|s| s.0 == *p);
        let want_ok = match op {
            KeyOp::Add { old, .. } => has(old) && slots.len() < 4,
            KeyOp::Change { old, .. } | KeyOp::Delete { old } => has(old),
            KeyOp::Verify { pw } => has(pw),
        };
        if ok != want_ok {
            viol!("{} {}", here(), if ok { "succeeded".into() } else { format!("failed: {why}") });
        }
        if !ok || matches!(op, KeyOp::Verify { .. }) {
            ensure!(after == file, "{} ({}) changed the file", here(), if ok { "succeeded" } else { "failed" });
            return Ok((slots.clone(), after));
        }
        let Some(h) = Hdr::parse(&after) else { viol!("{} left an invalid header", here()) };
        let Some(new) = read_slots(&h, &self.alphabet, &self.master) else {
            viol!("{} left a key slot that no known password opens", here())
        };
        // as a bag: what the operation is to remove and to add
        let (gone, come) = match op {
            KeyOp::Add { new, kdf, .. } => (None, Some((new.clone(), *kdf))),
            KeyOp::Change { old, new, kdf } => (Some(old), Some((new.clone(), *kdf))),
            KeyOp::Delete { old } => (Some(old), None),
            KeyOp::Verify { .. } => unreachable!(),
        };
        let mut got = new.clone();
        if let Some(c) = &come {
            let Some(i) = got.iter().position(|s| s == c) else { viol!("{}: now [{}]", here(), show(&new)) };
            got.remove(i);
        }
        got.sort();
        let possible = |remove: Option<usize>| {
            let mut s = slots.clone();
            if let Some(i) = remove {
                s.remove(i);
            }
            s.sort();
            s
        };
        let good = match gone {
            None => possible(None) == got,
            Some(old) => (0..slots.len()).any(|i| slots[i].0 == *old && possible(Some(i)) == got),
        };
        ensure!(good, "{}: now [{}]", here(), show(&new));
        if self.frame {
            self.frame_kept(file, &after, &h, come.is_some(), gone, &here())?;
        }
        Ok((new, after))
    }

    fn frame_kept(&self, file: &[u8], after: &[u8], h: &Hdr, comes: bool, gone: Option<&Vec<u8>>, here: &str) -> Res<()> {
        let hl = header_len(5);
        ensure!(file.len() == after.len(), "{here} changed the file's length");
        ensure!(file[hl..] == after[hl..], "{here} changed the payload");
        ensure!(file[..32] == after[..32], "{here} changed the static part of the header");
        let old = Hdr::parse(file).unwrap();
        // every slot but the one concerned is still there, byte for byte
        let mut rest: Vec<&Slot> = h.slots.iter().collect();
        let mut missing = vec![];
        for s in &old.slots {
            match rest.iter().position(|r| *r == s) {
                Some(i) => {
                    rest.remove(i);
                }
                None => missing.push(s),
            }
        }
        match gone {
            None => ensure!(missing.is_empty(), "{here} changed {} other key slots", missing.len()),
            Some(p) => {
                ensure!(missing.len() == 1, "{here} changed {} key slots", missing.len());
                let one = Hdr { slots: vec![missing[0].clone()], ..old.clone() };
                ensure!(one.master(p) == Some(self.master), "{here} changed another key slot");
            }
        }
        // (deleting moves those behind the deleted one up)
        if comes {
            let moved = old.slots.iter().zip(&h.slots).filter(|(a, b)| a != b).count();
            ensure!(moved == usize::from(gone.is_some()), "{here} changed the place of other key slots");
        }
        Ok(())
    }

    /// Which passwords open a state, through the real operations.
    fn state(&self, ex: &Ex, file: &[u8], slots: &Slots) -> Res<()> {
        for p in &self.alphabet {
            let has = slots.iter().any(|s| s.0 == *p);
            let (ok, why, after) = apply(ex, file, &KeyOp::Verify { pw: p.clone() })?;
            ensure!(ok == has, "with the keys [{}], verifying {:?} gives {ok} {why}", show(slots), String::from_utf8_lossy(p));
            ensure!(after == file, "verifying changed the file");
            let (r, out) = decrypt_bytes(ex, None, file, p)?;
            ensure!(r.is_ok() == has, "with the keys [{}], decrypting with {:?} gives {r:?}", show(slots), String::from_utf8_lossy(p));
            ensure!(if has { out == self.plain } else { out.is_empty() }, "with the keys [{}], {:?} decrypts to something else", show(slots), String::from_utf8_lossy(p));
        }
        Ok(())
    }

    fn explore(&self, ex: &Ex, starts: Vec<(Slots, Vec<u8>)>, depth: usize) -> Res {
        ex.horizon(u64::MAX);
        let ops = self.ops();
        let mut seen: BTreeMap<Slots, (Vec<u8>, String, usize)> = BTreeMap::new();
        let mut q: VecDeque<Slots> = VecDeque::new();
        for (s, f) in starts {
            if !seen.contains_key(&s) {
                seen.insert(s.clone(), (f, format!("[{}]", show(&s)), 0));
                q.push_back(s);
            }
        }
        let mut transitions = 0u64;
        while let Some(s) = q.pop_front() {
            let (file, hist, d) = seen[&s].clone();
            self.state(ex, &file, &s).map_err(|v| with_history(v, &hist))?;
            if d == depth {
                continue;
            }
            for op in &ops {
                transitions += 1;
                let (n, f) = self.step(ex, &file, &s, op).map_err(|v| with_history(v, &hist))?;
                if !seen.contains_key(&n) {
                    seen.insert(n.clone(), (f, format!("{hist} {}", op.name()), d + 1));
                    q.push_back(n);
                }
            }
        }
        count("graph_states", seen.len() as u64);
        count("graph_transitions", transitions);
        let deepest = seen.values().map(|v| v.2).max().unwrap_or(0);
        Ok(format!("{} states, {transitions} transitions, depth {deepest}", seen.len()))
    }
}

fn with_history(mut v: crate::explore::Viol, hist: &str) -> crate::explore::Viol {
    v.msg = format!("{} (history: {hist})", v.msg);
    v
}

fn alphabet(n: usize) -> Vec<Vec<u8>> {
    // the last one is never registered
    [&b"a"[..], b"ab", b"A", b"a\0", b"unregistered"][5 - n - 1..].iter().map(|p| p.to_vec()).collect()
}

fn graph(frame: bool, thorough: bool) -> Vec<Job> {
    let mut jobs = vec![];
    for alg in ALGS {
        for (n, kdfs) in [(2usize, vec![Kdf::A1, Kdf::A2, Kdf::B4]), (3, vec![Kdf::A3, Kdf::B5]), (4, vec![Kdf::B5])] {
            let mut variants = vec![(alphabet(n), kdfs.clone())];
            if thorough && n == 4 {
                variants.push((alphabet(4), vec![Kdf::A1, Kdf::A3, Kdf::B5]));
                variants.push((alphabet(4), vec![Kdf::A3, Kdf::B5]));
            }
            for (alphabet, kdfs) in variants {
                jobs.push(Job::new(
                    format!("{alg:?}, {} passwords, {kdfs:?}: all reachable states", alphabet.len() - 1),
                    0,
                    move |ex| {
                        // start: what encryption makes
                        let plain = bytes(8, 333);
                        let mut w = World { alphabet: alphabet.clone(), kdfs: kdfs.clone(), alg, master: [0; 32], plain, frame };
                        let mut out = vec![];
                        for (i, start_kdf) in [Kdf::A3, Kdf::B5].into_iter().enumerate() {
                            let p = &alphabet[i % (alphabet.len() - 1)];
                            let (r, file, _) = encrypt_bytes(ex, &w.plain, p, header_type(5, alg, Mode::Stream), kdf(start_kdf), false)?;
                            ensure!(r.is_ok(), "encryption failed: {r:?}");
                            let Some(m) = Hdr::parse(&file).and_then(|h| h.master(p)) else { viol!("the encrypted file doesn't open") };
                            w.master = m;
                            // which other KDFs a state has besides the alphabet's comes from the start
                            out.push(w.explore(ex, vec![(vec![(p.clone(), start_kdf)], file)], usize::MAX)?);
                        }
                        Ok(out.join("; "))
                    },
                ));
            }
        }
        // every slot layout, made by the reference implementation (not only reachable ones)
        let files: Vec<Slots> = {
            let a = alphabet(2);
            let mut v: Vec<Slots> = vec![vec![]];
            for s in 0..v.len() + 4 {
                let _ = s;
                let next: Vec<Slots> = v
                    .iter()
                    .filter(|x| x.len() < 4)
                    .flat_map(|x| {
                        a[..2].iter().flat_map(move |p| {
                            [Kdf::A1, Kdf::B5].map(|k| {
                                let mut y = x.clone();
                                y.push((p.clone(), k));
                                y
                            })
                        })
                    })
                    .collect();
                for n in next {
                    if !v.contains(&n) {
                        v.push(n);
                    }
                }
            }
            v
        };
        for mode in [Mode::Stream, Mode::Memory] {
            let files = files.clone();
            jobs.push(Job::new(format!("{alg:?} {mode:?}: all slot layouts made by the reference"), 0, move |ex| {
                let plain = bytes(9, 100);
                for s in &files {
                    let m = make(5, alg, mode, s, &plain, 71 + s.len() as u64);
                    let w = World { alphabet: alphabet(2), kdfs: vec![Kdf::A2], alg, master: m.master, plain: plain.clone(), frame };
                    w.state(ex, &m.file(), s)?;
                    for op in w.ops() {
                        count("graph_transitions", 1);
                        w.step(ex, &m.file(), s, &op)?;
                    }
                }
                count("graph_states", files.len() as u64);
                Ok(format!("{} layouts", files.len()))
            }));
        }
    }
    jobs
}

pub fn c10(thorough: bool) -> Vec<Job> {
    let mut jobs = graph(false, thorough);
    // a header kept in its own file: the key operations work on the header file alone
    for alg in ALGS {
        jobs.push(Job::new(format!("{alg:?}: detached header file"), 0, move |ex| {
            let plain = bytes(2, BLOCK + 3);
            let m = make(5, alg, Mode::Stream, &[(b"a".to_vec(), Kdf::A3)], &plain, 4);
            let mut header = m.header.clone();
            let mut have: Vec<&[u8]> = vec![b"a"];
            let steps: Vec<(KeyOp, Vec<&[u8]>)> = vec![
                (KeyOp::Add { old: b"a".to_vec(), new: b"b".to_vec(), kdf: Kdf::B5 }, vec![b"a", b"b"]),
                (KeyOp::Change { old: b"a".to_vec(), new: b"c".to_vec(), kdf: Kdf::B4 }, vec![b"c", b"b"]),
                (KeyOp::Delete { old: b"b".to_vec() }, vec![b"c"]),
                (KeyOp::Add { old: b"c".to_vec(), new: b"a".to_vec(), kdf: Kdf::A1 }, vec![b"c", b"a"]),
            ];
            for (op, opens) in steps {
                let (ok, why, after) = apply(ex, &header, &op)?;
                ensure!(ok, "{} on a header file failed: {why}", op.name());
                ensure!(after.len() == header.len(), "{} changed the header file's length", op.name());
                header = after;
                have = opens;
                for p in [&b"a"[..], b"b", b"c"] {
                    let (r, out) = decrypt_bytes(ex, Some(&header), &m.payload, p)?;
                    let want = have.contains(&p);
                    ensure!(r.is_ok() == want && (!want || out == plain), "after {} on the header file, {:?} gives {r:?}", op.name(), String::from_utf8_lossy(p));
                }
            }
            Ok(format!("{}", have.len()))
        }));
    }
    jobs
}

/// Where a key operation's file begins may be anything the caller left it at; the operation is
/// given a handle at the file's start, as the command does.
pub fn c11(thorough: bool) -> Vec<Job> {
    let mut jobs = graph(true, thorough);
    let ops = || {
        vec![
            KeyOp::Add { old: b"first".to_vec(), new: b"n".to_vec(), kdf: Kdf::A1 },
            KeyOp::Add { old: b"second".to_vec(), new: b"n".to_vec(), kdf: Kdf::B5 },
            KeyOp::Change { old: b"first".to_vec(), new: b"n".to_vec(), kdf: Kdf::B4 },
            KeyOp::Change { old: b"second".to_vec(), new: b"n".to_vec(), kdf: Kdf::B4 },
            KeyOp::Delete { old: b"first".to_vec() },
            KeyOp::Delete { old: b"second".to_vec() },
            KeyOp::Verify { pw: b"first".to_vec() },
            KeyOp::Add { old: b"wrong".to_vec(), new: b"n".to_vec(), kdf: Kdf::A1 },
            KeyOp::Change { old: b"wrong".to_vec(), new: b"n".to_vec(), kdf: Kdf::A1 },
            KeyOp::Delete { old: b"wrong".to_vec() },
            KeyOp::Verify { pw: b"wrong".to_vec() },
        ]
    };
    let two = |a: Alg| make(5, a, Mode::Stream, &[(b"first".to_vec(), Kdf::A3), (b"second".to_vec(), Kdf::B5)], &bytes(5, 700), 3);
    // every fault of a call: a failure before writing leaves the file alone, a failed write stays
    // inside the header
    for alg in ALGS {
        for op in ops() {
            for policy in [Policy::Fault, Policy::Choose, Policy::ChooseAndFault] {
                let op = op.clone();
                let bound = if policy == Policy::Fault || thorough { 2 } else { 1 };
                jobs.push(Job::new(format!("{alg:?} {} under {policy:?}", op.name()), bound, move |ex| {
                    let m = two(alg);
                    let before = m.file();
                    let n = node(before.clone());
                    let r = op.run(&RefCell::new(MFile::new(ex, &n, "file", policy)))?;
                    ex.close();
                    let g = n.lock().unwrap();
                    let hl = header_len(5);
                    ensure!(g.data.len() == before.len(), "the file's length changed");
                    ensure!(g.data[hl..] == before[hl..], "bytes after the header changed");
                    ensure!(g.data[..32] == before[..32], "the static part of the header changed");
                    let wrote_failed = g.log.iter().any(|o| matches!(o, Op::Fault("write" | "flush")));
                    if matches!(op, KeyOp::Verify { .. }) {
                        ensure!(g.writes == 0, "verification wrote to the file");
                    }
                    match &r {
                        Ok(()) => ensure!(!matches!(&op, KeyOp::Add{old,..}|KeyOp::Change{old,..}|KeyOp::Delete{old} if old == b"wrong"), "a wrong password was accepted"),
                        Err(e) => {
                            if !wrote_failed && !ex.notes().iter().any(|n| n.contains("write") && n.contains("interrupted")) {
                                ensure!(g.data == before, "failed ({e}) but changed the file");
                            }
                        }
                    }
                    Ok(format!("{r:?} {}", ex.notes().join(";")))
                }));
            }
        }
    }
    // requests that have to be refused
    for alg in ALGS {
        for op in ops() {
            jobs.push(Job::new(format!("{alg:?} {} on files it can't work on", op.name()), 0, move |ex| {
                let base = two(alg).file();
                let mut files: Vec<(String, Vec<u8>)> = vec![];
                for v in 1..=4u8 {
                    for mode in [Mode::Stream, Mode::Memory] {
                        files.push((format!("version {v} {mode:?}"), make(v, alg, mode, &[(b"first".to_vec(), Kdf::B4)], b"text", 3).file()));
                    }
                }
                for n in 0..header_len(5) {
                    files.push((format!("cut after {n} bytes"), base[..n].to_vec()));
                }
                for i in [0usize, 1, 2, 3, 4, 5] {
                    for b in 0..=255u8 {
                        let mut f = base.clone();
                        if f[i] != b {
                            f[i] = b;
                            // another valid AEAD or mode tag is a header of its own
                            if Hdr::parse_lax(&f).is_none() {
                                files.push((format!("byte {i} is {b}"), f));
                            }
                        }
                    }
                }
                for (what, f) in &files {
                    let (ok, _, after) = apply(ex, f, &op)?;
                    ensure!(!ok, "{} on {what} succeeded", op.name());
                    ensure!(after == *f, "{} on {what} was refused but changed the file", op.name());
                }
                // cost parameters that don't exist
                for bad in [(0u8, 0i32), (0, 4), (0, -1), (1, 0), (1, 1), (1, 2), (1, 3), (1, 6), (1, i32::MIN), (0, i32::MAX)] {
                    use corecrypto::header::HashingAlgorithm as H;
                    use tools::key::{add, change};
                    let h = || if bad.0 == 0 { H::Argon2id(bad.1) } else { H::Blake3Balloon(bad.1) };
                    for change in [false, true] {
                        let n = node(base.clone());
                        let f = RefCell::new(MFile::new(ex, &n, "file", Policy::Full));
                        let r = crate::explore::sut("key operation", || {
                            if change {
                                change::execute(change::Request { handle: &f, raw_key_old: pw(b"first"), raw_key_new: pw(b"n"), hash_algorithm: h() })
                            } else {
                                add::execute(add::Request { handle: &f, raw_key_old: pw(b"first"), raw_key_new: pw(b"n"), hash_algorithm: h() })
                            }
                        })?;
                        ensure!(r.is_err(), "an unsupported KDF {bad:?} was accepted");
                        ensure!(n.lock().unwrap().data == base, "an unsupported KDF {bad:?} was refused but the file changed");
                    }
                }
                Ok(format!("{} files", files.len()))
            }));
        }
    }
    jobs
}

// ---- C12 -----------------------------------------------------------------------------------

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
enum H {
    Dump,
    Strip,
    Restore,
    Add,
    Delete,
    Detached,
    Embedded,
}

fn header_history(ex: &Ex, m: &Made, plain: &[u8], hist: &[H]) -> Res<String> {
    let hl = header_len(m.hdr.version);
    let mut file = m.file();
    let mut dumped: Option<Vec<u8>> = None;
    let mut out = String::new();
    for (i, h) in hist.iter().enumerate() {
        let at = format!("step {} of {hist:?} (V{} {:?} {:?})", i + 1, m.hdr.version, m.hdr.alg, m.hdr.mode);
        let present = file[..hl] != vec![0; hl][..];
        let n = node(file.clone());
        let f = RefCell::new(MFile::new(ex, &n, "file", Policy::Full));
        let d = node(dumped.clone().unwrap_or_default());
        let df = RefCell::new(MFile::new(ex, &d, "header", Policy::Full));
        let mut want = file.clone();
        let (ok, want_ok) = match h {
            H::Dump => {
                let o = node(vec![]);
                let of = RefCell::new(MFile::new(ex, &o, "header", Policy::Full));
                let r = dump(&f, &of)?;
                let got = o.lock().unwrap().data.clone();
                if r.is_ok() {
                    ensure!(got == file[..hl], "{at}: the dumped header isn't the file's first {hl} bytes");
                    dumped = Some(got);
                }
                (r.is_ok(), present)
            }
            H::Strip => {
                want[..hl].fill(0);
                (strip(&f)?.is_ok(), present)
            }
            H::Restore => {
                let Some(h) = &dumped else { continue };
                want[..hl].copy_from_slice(h);
                (restore(&df, &f)?.is_ok(), !present)
            }
            H::Add | H::Delete => {
                let op = if *h == H::Add {
                    KeyOp::Add { old: b"pw".to_vec(), new: b"extra".to_vec(), kdf: Kdf::A1 }
                } else {
                    KeyOp::Delete { old: b"extra".to_vec() }
                };
                let r = op.run(&f)?.is_ok();
                let extra = Hdr::parse(&file).map_or(0, |h| h.slots.len()) > 1;
                let full = Hdr::parse(&file).map_or(0, |h| h.slots.len()) == 4;
                if r {
                    want = n.lock().unwrap().data.clone();
                    ensure!(want.len() == file.len() && want[hl..] == file[hl..] && Hdr::parse(&want).is_some(), "{at}: the key operation damaged the file");
                }
                (r, m.hdr.version == 5 && present && if *h == H::Add { !full } else { extra })
            }
            H::Detached => {
                let Some(h) = &dumped else { continue };
                let (r, text) = decrypt_bytes(ex, Some(h), &file, b"pw")?;
                // with a header of its own in place, the file isn't a payload
                if !present {
                    ensure!(r.is_ok() && text == plain, "{at}: the dumped header doesn't open the stripped file: {r:?}");
                }
                continue;
            }
            H::Embedded => {
                let (r, text) = decrypt_bytes(ex, None, &file, b"pw")?;
                ensure!(r.is_ok() == present, "{at}: decryption gives {r:?}");
                ensure!(!present || text == plain, "{at}: decryption gives something else");
                continue;
            }
        };
        ensure!(ok == want_ok, "{at} {}", if ok { "succeeded" } else { "failed" });
        let now = n.lock().unwrap().data.clone();
        if !ok {
            want = file.clone();
        }
        ensure!(now == want, "{at}: the file isn't what it should be (first difference at {:?})", (0..now.len().min(want.len())).find(|i| now[*i] != want[*i]));
        ensure!(dumped.is_none() || *d.lock().unwrap().data == dumped.clone().unwrap()[..] || *h == H::Dump, "{at}: the header file changed");
        file = now;
        out.push(if ok { '+' } else { '-' });
    }
    Ok(out)
}

pub fn c12(thorough: bool) -> Vec<Job> {
    let mut jobs = vec![];
    let samples: Vec<(u8, Alg, Mode, usize)> = (3..=5u8)
        .flat_map(|v| ALGS.into_iter().flat_map(move |a| [Mode::Stream, Mode::Memory].into_iter().flat_map(move |m| [0usize, 300].into_iter().map(move |n| (v, a, m, n)))))
        .collect();
    for &(v, a, mode, n) in &samples {
        let depth = if thorough { 6 } else { 4 };
        jobs.push(Job::new(format!("V{v} {a:?} {mode:?} {n} bytes: all histories of {depth} operations"), 0, move |ex| {
            let plain = bytes(6, n);
            let m = make(v, a, mode, &[(b"pw".to_vec(), Kdf::B5)], &plain, 12);
            let menu = [H::Dump, H::Strip, H::Restore, H::Add, H::Delete, H::Detached, H::Embedded];
            let mut hist = vec![];
            for _ in 0..depth {
                hist.push(menu[ex.pick("operation", menu.len() as u32) as usize]);
            }
            // (histories are explored to their full length; shorter ones are their prefixes)
            let o = header_history(ex, &m, &plain, &hist)?;
            Ok(format!("{hist:?} {o}"))
        }));
    }
    // header files and restore targets of every shape
    for &(v, a, mode, n) in &samples {
        jobs.push(Job::new(format!("V{v} {a:?} {mode:?} {n} bytes: restore targets and header files"), 0, move |ex| {
            let m = make(v, a, mode, &[(b"pw".to_vec(), Kdf::B5)], &bytes(6, n), 12);
            let hl = header_len(v);
            let run = |header: &[u8], target: &[u8]| -> Res<(bool, Vec<u8>)> {
                let (h, t) = (node(header.to_vec()), node(target.to_vec()));
                let r = restore(&RefCell::new(MFile::new(ex, &h, "header", Policy::Full)), &RefCell::new(MFile::new(ex, &t, "file", Policy::Full)))?;
                let data = t.lock().unwrap().data.clone();
                ensure!(h.lock().unwrap().data == header, "restore changed the header file");
                Ok((r.is_ok(), data))
            };
            let stripped = [vec![0; hl], m.payload.clone()].concat();
            let mut cases = 0;
            for i in 0..hl {
                for b in [1u8, 0x80, 0xff, 0xde] {
                    let mut t = stripped.clone();
                    t[i] = b;
                    let (ok, after) = run(&m.header, &t)?;
                    ensure!(!ok && after == t, "a target with byte {i} = {b} {}", if ok { "was accepted" } else { "was modified" });
                    cases += 1;
                }
            }
            for len in 0..hl + 3 {
                let t = vec![0; len];
                let (ok, after) = run(&m.header, &t)?;
                ensure!(ok == (len >= hl), "a target of {len} zeros {}", if ok { "was accepted" } else { "was refused" });
                let mut want = t;
                if ok {
                    want[..hl].copy_from_slice(&m.header);
                }
                ensure!(after == want, "a target of {len} zeros is wrong afterwards");
                cases += 1;
            }
            // header files that are cut, extended, or a whole encrypted file
            for len in 0..hl {
                let (ok, after) = run(&m.header[..len], &stripped)?;
                ensure!(!ok && after == stripped, "a header file of {len} bytes {}", if ok { "was accepted" } else { "modified the target" });
                cases += 1;
            }
            for tail in [1usize, 500] {
                let (ok, after) = run(&[m.header.clone(), vec![7; tail]].concat(), &stripped)?;
                ensure!(ok && after == m.file(), "a header followed by {tail} bytes isn't restored");
                cases += 1;
            }
            for i in [0usize, 1, 2, 3, 4, 5] {
                for b in 0..=255u8 {
                    let mut h = m.header.clone();
                    h[i] = b;
                    if Hdr::parse_lax(&[&h[..], &m.payload].concat()).is_none() {
                        let (ok, after) = run(&h, &stripped)?;
                        ensure!(!ok && after == stripped, "a header with byte {i} = {b} {}", if ok { "was restored" } else { "modified the target" });
                        for which in 0..2 {
                            let f = [h.clone(), m.payload.clone()].concat();
                            let nd = node(f.clone());
                            let o = node(b"old".to_vec());
                            let fh = RefCell::new(MFile::new(ex, &nd, "file", Policy::Full));
                            let ok = match which {
                                0 => strip(&fh)?.is_ok(),
                                _ => dump(&fh, &RefCell::new(MFile::new(ex, &o, "out", Policy::Full)))?.is_ok(),
                            };
                            ensure!(!ok, "a file with header byte {i} = {b} was accepted by {}", ["strip", "dump"][which]);
                            ensure!(nd.lock().unwrap().data == f, "a file with header byte {i} = {b} was modified by {}", ["strip", "dump"][which]);
                        }
                        cases += 1;
                    }
                }
            }
            Ok(format!("{cases} cases"))
        }));
    }
    // all numbers of key slots
    for a in ALGS {
        jobs.push(Job::new(format!("V5 {a:?}: all slot counts"), 0, move |ex| {
            for n in 0..=4usize {
                let pws: Vec<_> = (0..n).map(|i| (if i == n - 1 { b"pw".to_vec() } else { vec![b'0' + i as u8] }, [Kdf::A1, Kdf::A2, Kdf::A3, Kdf::B5][i])).collect();
                let plain = bytes(1, 50);
                let m = make(5, a, Mode::Stream, &pws, &plain, 8);
                for hist in [[H::Dump, H::Strip, H::Detached, H::Restore], [H::Dump, H::Dump, H::Strip, H::Restore]] {
                    if n > 0 || !hist.contains(&H::Detached) {
                        header_history(ex, &m, &plain, &hist)?;
                    }
                }
            }
            Ok("ok".into())
        }));
    }
    jobs
}

