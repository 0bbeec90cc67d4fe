//! C02, C13, C14: what the environment may do to the calls of an operation.

use crate::explore::{Ex, Job, Res};
use crate::mfile::Policy;
use crate::scen::{self, execute, Group, Scen};
use crate::{ensure, viol};
use std::sync::Arc;

/// Success means the full effect; a refusal leaves everything as it was.
fn check(s: &Scen, ex: &Ex, configure: impl FnOnce(&mut crate::mfs::Mfs), must_succeed: bool) -> Res {
    let (fs, before, r) = execute(s, ex, configure)?;
    let interrupted = ex.notes().iter().any(|n| n.contains("interrupted") || n.contains("fails"));
    ex.close();
    match r {
        Ok(text) => {
            // the only call whose failure another may make up for: making a file, which may be there
            // (a write of kind 3 takes a part of the data, the next one fails)
            if matches!(s.group, Group::File | Group::Erase) {
                if let Some(n) = ex.notes().iter().find(|n| n.contains(" fails") && !(n.contains(".write call") && n.ends_with("(kind 3)")) && !n.starts_with("storage call create_file")) {
                    viol!("{} reported success although a call failed: {n}", s.name);
                }
            }
            ensure!(!s.must_fail, "{} reported success", s.name);
            (s.judge)(&fs, &text, &before)?;
            for src in &s.sources {
                let p = format!("/w/{src}");
                let (b, a) = (fs.snapshot(&p), before.iter().filter(|(k, _)| **k == p || k.starts_with(&format!("{p}/"))).map(|(k, v)| (k.clone(), v.clone())).collect());
                ensure!(b == a, "{} changed its input {src}", s.name);
            }
            Ok("ok".into())
        }
        Err(e) => {
            ensure!(s.must_fail || interrupted || !must_succeed, "{} failed ({e}) although no call failed", s.name);
            if s.must_fail {
                ensure!(fs.snapshot("/") == before, "{} was refused but changed files", s.name);
            }
            Ok(format!("fails: {e}"))
        }
    }
}

pub fn c02(thorough: bool) -> Vec<Job> {
    let mut jobs = vec![];
    for s in scen::all_small() {
        let s = Arc::new(s);
        for p in [
            Policy::Full,
            Policy::AtMost(1),
            Policy::AtMost(2),
            Policy::AtMost(7),
            Policy::AtMost(31),
            Policy::AtMost(511),
            Policy::Ragged,
        ] {
            let s = s.clone();
            jobs.push(Job::new(format!("{} under {p:?}", s.name), 0, move |ex| check(&s, ex, |fs| fs.stream = Box::new(move |_, _| p), true)));
        }
        for k in [1usize, 13, 600, usize::MAX] {
            let s = s.clone();
            jobs.push(Job::new(format!("{} interrupted, at most {k}", s.name), 0, move |ex| {
                check(&s, ex, |fs| fs.stream = Box::new(move |_, _| Policy::Interrupted(k)), false)
            }));
        }
        // every bounded sequence of deviations from full transfers
        let few_calls = s.group == Group::File;
        let bound = match (few_calls, thorough) {
            (true, false) => 2,
            (true, true) => 3,
            (false, false) => 1,
            (false, true) => 2,
        };
        let s2 = s.clone();
        jobs.push(Job::new(format!("{} chosen splits", s.name), bound, move |ex| check(&s2, ex, |fs| fs.stream = Box::new(|_, _| Policy::Choose), true)));
    }
    for s in scen::all_big() {
        let s = Arc::new(s);
        for p in [Policy::Full, Policy::AtMost(4096), Policy::AtMost(65_536), Policy::AtMost(1_000_003), Policy::Ragged] {
            let s = s.clone();
            jobs.push(Job::new(format!("{} under {p:?}", s.name), 0, move |ex| check(&s, ex, |fs| fs.stream = Box::new(move |_, _| p), true)));
        }
        for k in [60_001usize, usize::MAX] {
            let s = s.clone();
            jobs.push(Job::new(format!("{} interrupted, at most {k}", s.name), 0, move |ex| {
                check(&s, ex, |fs| fs.stream = Box::new(move |_, _| Policy::Interrupted(k)), false)
            }));
        }
        if s.group == Group::File || thorough {
            let bound = if thorough && s.group == Group::File { 2 } else { 1 };
            jobs.push(Job::new(format!("{} chosen splits", s.name), bound, move |ex| check(&s, ex, |fs| fs.stream = Box::new(|_, _| Policy::Choose), true)));
        }
    }
    jobs
}

fn faults(s: Scen, bound: usize) -> Job {
    let what = s.name.clone();
    Job::new(format!("{what}: every fault"), bound, move |ex| {
        let r = check(
            &s,
            ex,
            |fs| {
                fs.faults = true;
                fs.stream = Box::new(|_, _| Policy::Fault);
            },
            false,
        );
        match r {
            Err(mut v) => {
                v.msg = format!("{} (faults: {:?})", v.msg, ex.notes());
                Err(v)
            }
            Ok(o) => Ok(format!("{o} {}", ex.notes().join(";"))),
        }
    })
}

pub fn c13(thorough: bool) -> Vec<Job> {
    let mut jobs = vec![];
    for s in scen::all_small() {
        if matches!(s.group, Group::File | Group::Erase) {
            jobs.push(faults(s, if thorough { 2 } else { 1 }));
        }
    }
    for s in scen::all_big() {
        if matches!(s.group, Group::File | Group::Erase) {
            jobs.push(faults(s, if thorough { 2 } else { 1 }));
        }
    }
    // transfers split and faulty at once
    for s in scen::all_small() {
        if s.group == Group::File {
            jobs.push(Job::new(format!("{}: splits and faults", s.name), 2, move |ex| {
                check(&s, ex, |fs| fs.stream = Box::new(|_, _| Policy::ChooseAndFault), false)
            }));
        }
    }
    jobs
}

pub fn c14(thorough: bool) -> Vec<Job> {
    let mut jobs = vec![];
    for s in scen::all_small() {
        if matches!(s.group, Group::Pack | Group::Unpack) {
            jobs.push(faults(s, if thorough { 2 } else { 1 }));
        }
    }
    // thousands of calls each, most of them 512-byte overwrites of the temporary archive
    for (i, s) in scen::packs(true).into_iter().chain(scen::unpacks(true)).enumerate() {
        if thorough || i == 0 || i == 5 {
            jobs.push(faults(s, 1));
        }
    }
    jobs
}
