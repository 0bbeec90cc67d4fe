//! `mc run ID [--tier quick|thorough]`: decides one property.  `mc replay FILE`: one execution again.
//!
//! The parent makes a scratch directory, and runs the exploration in it as an unprivileged user.

#![allow(clippy::type_complexity)]

mod cli;
mod explore;
mod mfile;
mod mfs;
mod ops;
mod osx;
mod p_calls;
mod p_cli;
mod p_cross;
mod p_crypto;
mod p_fs;
mod p_keys;
mod p_par;
mod p_sched;
mod p_secrets;
mod p_storage;
mod p_streams;
mod refimpl;
mod scen;
mod sched;
mod spy;

#[global_allocator]
static ALLOC: spy::Spy = spy::Spy;

use explore::{Config, Found, Job, Report};
use std::fmt::Write as _;
use std::path::{Path, PathBuf};
use std::process::{Command, ExitCode};
use std::time::{Duration, Instant};

pub struct Check {
    pub id: &'static str,
    pub level: &'static str,
    /// what a case is and what makes one non-trivial
    pub rule: &'static str,
    pub assumptions: &'static [&'static str],
    pub jobs: fn(bool) -> Vec<Job>,
}

const A_KDF: &str = "the memory-hard part of Argon2id and Balloon is skipped (password, salt, secret and every parameter still enter the output through BLAKE3), except where the real functions are compared";
const A_PRIM: &str = "the AEAD, BLAKE3, Argon2id and Balloon crates are trusted as primitives; the reference implementation of the format shares them";
const A_FS: &str = "the model file system, compared with the real one by C24";
const A_CLI: &str = "the command is built from the sources of the repository with debug assertions and run with a preloaded library that sees and decides the libc calls on its files; threads of the command run one at a time";
const A_STREAM: &str = "file contents, cursors and partial transfers are those of a model stream with the semantics of a regular file";

fn checks() -> Vec<Check> {
    macro_rules! c {
        ($id:literal, $level:literal, $jobs:path, $rule:literal, [$($a:expr),*]) => {
            Check { id: $id, level: $level, jobs: $jobs, rule: $rule, assumptions: &[$($a),*] }
        };
    }
    vec![
        c!("C01", "model_checking", p_cross::c01, "every combination of the listed sizes, contents, passwords, stream positions, AEADs, KDFs, versions and header placements is executed once; distinct outcomes are counted; jobs named `the command` do the same by runs of the real command on real files", [A_KDF, A_STREAM, A_CLI]),
        c!("C02", "model_checking", p_cross::c02, "every operation is run under every listed splitting policy and under every sequence of at most the bound of short transfers and interruptions; success has to mean the full effect; jobs named `the command` do the same by runs of the real command on real files", [A_KDF, A_STREAM, A_CLI]),
        c!("C03", "model_checking", p_crypto::c03, "every bit flip, length, block sequence up to the bound and header exchange of the sample files is decrypted once", [A_KDF, A_PRIM, A_STREAM]),
        c!("C04", "model_checking", p_cross::c04, "every neighbour (bit flip, truncation, insertion, padding, case...) of every password class is tried against every version and KDF; jobs named `the command` do the same by runs of the real command on real files", [A_KDF, A_PRIM, A_STREAM, A_CLI]),
        c!("C05", "model_checking", p_crypto::c05, "every combination of version, AEAD, mode, KDF, slot layout, size and header placement, made by an independent implementation of the format, is decrypted once", [A_KDF, A_PRIM, A_STREAM]),
        c!("C06", "model_checking", p_crypto::c06, "every combination of version, AEAD, KDF, size, password class and header placement is encrypted once and opened by an independent implementation", [A_KDF, A_PRIM, A_STREAM]),
        c!("C07", "model_checking", p_crypto::c07, "every header value of the listed domains is written and read back; every single-byte change of valid headers is compared with an independent parser", [A_PRIM, A_STREAM]),
        c!("C08", "model_checking", p_cross::c08, "every truncation, every value of every byte, and all combinations of tag values of valid files are given to every operation; jobs named `the command` do the same by runs of the real command on real files", [A_KDF, A_STREAM, A_CLI]),
        c!("C09", "model_checking", p_crypto::c09, "every operation sequence up to the bound is run over every one of the listed entropies; all secrets drawn have to be distinct and follow the entropy", [A_KDF, "the rand crate expands system entropy soundly", "secrets are compared over the enumerated entropies; a generator that repeats only on other entropies is not seen"]),
        c!("C10", "model_checking", p_keys::c10, "breadth-first over the key slots (password and KDF of each, in order) with every key operation of the alphabet in every state; every state is also opened with every password", [A_KDF, A_STREAM, "two files whose slots hold the same passwords and KDFs in the same order behave alike (they differ in random values only)"]),
        c!("C11", "model_checking", p_keys::c11, "every transition of the key-slot graph, every bounded sequence of faults and short transfers, and every malformed header of the lists; files compared byte for byte", [A_KDF, A_STREAM]),
        c!("C12", "model_checking", p_keys::c12, "every history of dump, strip, restore and key operations up to the depth, every changed byte and length of restore targets and header files", [A_KDF, A_STREAM]),
        c!("C13", "fault_enumeration", p_cross::c13, "one execution per model call and failure kind (error, no progress, half a write then full); non-trivial: distinct (scenario, fault, outcome); jobs named `the command` do the same by runs of the real command on real files", [A_KDF, A_STREAM, A_CLI]),
        c!("C14", "fault_enumeration", p_cross::c14, "one execution per storage or stream call and failure kind; non-trivial: distinct (scenario, fault, outcome); jobs named `the command` do the same by runs of the real command on real files", [A_KDF, "the model file system, compared with the real one by C24", A_CLI]),
        c!("C15", "model_checking", p_cross::c15, "every tree up to the bound, every listed name, size, shape and spelling is packed and unpacked once over the model file system and compared entry by entry; jobs named `the command` do the same by runs of the real command on real files", [A_KDF, A_FS, A_CLI]),
        c!("C16", "model_checking", p_cross::c16, "every entry name built from the alphabet up to the bound, in every listed kind of archive, is unpacked over the model and over the real file system; jobs named `the command` do the same by runs of the real command on real files", [A_KDF, A_FS, A_CLI]),
        c!("C17", "model_checking", p_cross::c17, "every storage, stream and zip call of pack and unpack is a point at which the state of the staged archive is judged, with every single fault; jobs named `the command` do the same by runs of the real command on real files", [A_KDF, A_FS, A_CLI]),
        c!("C18", "model_checking", p_cross::c18, "every size, pass count and bounded sequence of short or failing writes; the sequence of writes is judged byte by byte; jobs named `the command` do the same by runs of the real command on real files", [A_FS, A_CLI]),
        c!("C19", "model_checking", p_sched::c19, "every schedule of the erasing threads with at most the bound of preemptions, together with faults; over the model file system (points: storage and stream calls) and over the real one (points: libc calls)", [A_FS, "memory accesses between two file operations, lock operations, joins or spawns happen as one step"]),
        c!("C20", "model_checking", p_sched::c20, "every schedule of the threads that make directories with at most the bound of preemptions, together with faults; over the model file system and over the real one", [A_KDF, A_FS, "memory accesses between two file operations, lock operations, joins or spawns happen as one step"]),
        c!("C21", "model_checking", p_cross::c21, "every operation under every splitting policy and every single fault; every write, truncation, removal or opening for writing of an input's inode is a violation; jobs named `the command` do the same by runs of the real command on real files", [A_KDF, A_FS, A_CLI]),
        c!("C22", "model_checking", p_cross::c22, "every size, cursor position and bounded sequence of short reads is hashed once and compared with the reference hash; jobs named `the command` do the same by runs of the real command on real files", ["the blake3 crate is trusted as the reference", A_STREAM, A_CLI]),
        c!("C23", "model_checking", p_crypto::c23, "every value of every random draw (word index, number) is enumerated through the generator seam", ["random draws are taken through the rand crate"]),
        c!("C24", "model_checking", p_storage::c24, "breadth-first over directory trees, every storage operation on every listed path in every state reached; every operation sequence on two open handles up to the depth; the real storage against the model", ["the file system of the sandbox behaves like a POSIX file system"]),
        c!("C25", "model_checking", p_secrets::c25, "every operation with every listed version, AEAD, KDF, password and single fault; every block of memory its thread releases is searched for the secrets; every history of handles up to the depth", [A_KDF, "copies in stack frames and registers, and memory released by other threads, aren't seen"]),
        c!("C26", "model_checking", p_crypto::c26, "every plaintext size around block boundaries, every block sequence and every nonce length is run through the streams", [A_PRIM, A_STREAM]),
        c!("C27", "model_checking", p_crypto::c27, "every algorithm x parameter version x password class x single-bit change of password and salt", [A_KDF, "the argon2 and balloon-hash crates are trusted as the published functions"]),
        c!("C28", "model_checking", p_par::c28, "every pair of operations (and some triples) on one store under every schedule of their threads up to the preemption bound; every pair of commands, the one stopped at every one of its file system calls while the other runs; each effect is compared with the one it has alone", [A_FS, A_KDF, A_CLI]),
        c!("C29", "model_checking", p_calls::c29, "every list of entries up to the bound with every combination of answers, every byte of every kind of header, every single fault and every bounded schedule; all that callers are told or asked is recorded with the state of the target at that time, and judged", [A_KDF, A_FS, "a callback returns"]),
        c!("C30", "model_checking", p_cli::c30, "every combination of the options of every subcommand (and of their spellings and positions) is run once as a process; all effects are compared with the documented ones", [A_KDF, A_CLI]),
        c!("C31", "fault_enumeration", p_cli::c31, "one run of the command per file system call and kind of failure (killed there, killed half way through a write, error, disk full); the tree left behind is judged", [A_KDF, A_CLI, "a kill loses nothing that was written before it (power loss isn't modelled)"]),
        c!("C32", "model_checking", p_cli::c32, "every command over every listed kind of existing output with every sequence of answers; every pair of spellings of a file as input and output; the tree is compared before and after", [A_KDF, A_CLI]),
        c!("C33", "fault_enumeration", p_cli::c33, "one run of the command per file system call and error, and one per malformed input; exit status, message and effects are judged", [A_KDF, A_CLI]),
        c!("C34", "model_checking", p_cli::c34, "every content of keys by every way to give it, every combination of the sources of keys, every sequence of lines typed up to the bound, every unusable keyfile; an independent implementation opens the outputs", [A_KDF, A_CLI]),
    ]
}

pub fn tier_thorough() -> bool {
    std::env::args().any(|a| a == "thorough")
}

pub fn json_str(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            '\r' => o.push_str("\\r"),
            '\t' => o.push_str("\\t"),
            c if (c as u32) < 0x20 || (c as u32) == 0x7f => {
                let _ = write!(o, "\\u{:04x}", c as u32);
            }
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

fn json_list(v: &[String]) -> String {
    format!("[{}]", v.iter().map(|s| json_str(s)).collect::<Vec<_>>().join(", "))
}

struct Known {
    sig: String,
    what: String,
}

/// Lines `known: property=ID signature=SIG what...`
fn known_findings(text: &str, id: &str) -> Vec<Known> {
    text.lines()
        .filter_map(|l| {
            let l = l.strip_prefix("known: ")?;
            let (p, rest) = l.split_once(' ')?;
            let rest = rest.strip_prefix("signature=")?;
            let (sig, what) = rest.split_once(' ')?;
            (p == format!("property={id}")).then(|| Known { sig: sig.into(), what: what.into() })
        })
        .collect()
}

fn evidence(c: &Check, tier: &str, rep: &Report, wall: f64, violations: usize) -> String {
    let seed: i64 = std::env::var("VERIF_SEED").ok().and_then(|s| s.parse().ok()).unwrap_or(1);
    let mut cov: Vec<(String, String)> = vec![];
    let mut put = |k: &str, v: String| cov.push((k.into(), v));
    let distinct = rep.outcomes.len() as u64;
    if c.level == "model_checking" {
        let n = |k: &str| rep.counters.get(k).copied().unwrap_or(0);
        put("states", (distinct + n("graph_states")).to_string());
        put("transitions", (rep.points + rep.executions + n("graph_transitions")).to_string());
        put("traces_validated_against_impl", (rep.executions + n("graph_transitions")).to_string());
    } else {
        put("evaluations", rep.executions.to_string());
        put("distinct_nontrivial", distinct.to_string());
    }
    put("rule", json_str(c.rule));
    put("scenarios", rep.jobs.to_string());
    put("executions_with_deviations", rep.deviating.to_string());
    put("deepest_deviation_count", rep.max_deviations.to_string());
    put("exhaustive", (!rep.capped && violations == 0).to_string());
    if rep.capped {
        put("cap", json_str("the wall-clock cap was hit; executions are enumerated breadth-wise per scenario in order"));
    }
    put("samples", json_list(&rep.samples));
    for (k, v) in &rep.counters {
        put(k, v.to_string());
    }
    for (k, v) in &rep.extra {
        put(k, json_str(v));
    }
    let cov = cov.iter().map(|(k, v)| format!("    {}: {v}", json_str(k))).collect::<Vec<_>>().join(",\n");
    let assumptions: Vec<String> = c.assumptions.iter().map(|s| s.to_string()).collect();
    format!(
        "{{\n  \"property\": {},\n  \"tier\": {},\n  \"seed\": {seed},\n  \"level\": {},\n  \"coverage\": {{\n{cov}\n  }},\n  \"assumptions\": {},\n  \"wall_s\": {wall:.3},\n  \"violations\": {violations}\n}}\n",
        json_str(c.id),
        json_str(tier),
        json_str(c.level),
        json_list(&assumptions)
    )
}

fn replay_text(id: &str, tier: &str, f: &Found) -> String {
    let mut s = format!(
        "property={id}\ntier={tier}\njob={}\nchoices={}\nviolation={}\nsignature={}\n\n",
        f.job,
        f.choices.iter().map(|c| c.to_string()).collect::<Vec<_>>().join(","),
        f.viol.msg.replace('\n', " "),
        f.viol.sig
    );
    s += "choice points:\n";
    for p in &f.trace {
        let _ = writeln!(s, "  {} -> {} of {}{}", p.label, p.choice, p.n, if p.free { "" } else { " (deviation if not 0)" });
    }
    if !f.notes.is_empty() {
        s += "history:\n";
        for n in &f.notes {
            let _ = writeln!(s, "  {n}");
        }
    }
    let _ = writeln!(s, "\nreplay with: /verif/check.sh replay <this file>");
    s
}

/// The unprivileged side: explores, prints results, leaves files in the current directory.
fn child(id: &str, tier: &str) -> i32 {
    let list = checks();
    let Some(c) = list.iter().find(|c| c.id == id) else {
        eprintln!("no such check: {id}");
        return 3;
    };
    explore::install_panic_hook();
    mctape::set_fast_kdf(true);
    let thorough = tier == "thorough";
    let start = Instant::now();
    let known = known_findings(&std::fs::read_to_string("known.txt").unwrap_or_default(), id);
    let mut jobs = (c.jobs)(thorough);
    if let Ok(only) = std::env::var("MC_ONLY") {
        jobs.retain(|j| j.name.contains(&only));
    }
    let wall = std::env::var("MC_WALL").ok().and_then(|s| s.parse().ok()).unwrap_or(if thorough { 3000 } else { 500 });
    let workers = std::env::var("MC_WORKERS").ok().and_then(|s| s.parse().ok()).unwrap_or(8);
    let cfg = Config {
        workers,
        wall: Duration::from_secs(wall),
        max_found: 3,
        known: known.iter().map(|k| k.sig.clone()).collect(),
    };
    let mut rep = explore::run(&jobs, &cfg);
    // every violation has to happen again, the same way, twice
    let mut confirmed: Vec<Found> = vec![];
    for f in std::mem::take(&mut rep.found) {
        let job = jobs.iter().find(|j| j.name == f.job).unwrap();
        let mut same = true;
        for _ in 0..2 {
            let (v, _, e) = explore::replay(job, &f.choices);
            if let Some(e) = e {
                rep.engine_errors.push(e);
                same = false;
            } else if v.is_none() {
                rep.engine_errors.push(format!("{}: a violation didn't reproduce ({})", f.job, f.viol.msg));
                same = false;
            }
        }
        if same {
            confirmed.push(f);
        }
    }
    confirmed.sort_by_key(|f| (explore::cost(&f.trace), f.choices.len()));
    let mut fresh = vec![];
    for f in confirmed {
        match known.iter().find(|k| k.sig == f.viol.sig) {
            Some(k) => println!("KNOWN-FINDING: property={id} {}", k.what),
            None => fresh.push(f),
        }
    }
    for (i, f) in fresh.iter().enumerate() {
        std::fs::write(format!("replay-{i}.txt"), replay_text(id, tier, f)).unwrap();
        println!("FOUND {i} job={} choices={:?}: {}", f.job, f.choices, f.viol.msg);
    }
    let wall = start.elapsed().as_secs_f64();
    std::fs::write("evidence.json", evidence(c, tier, &rep, wall, fresh.len())).unwrap();
    println!(
        "{id} {tier}: {} scenarios, {} executions, {} choice points, {} distinct outcomes, {} deviating, max deviations {}, {}{:.1} s",
        rep.jobs,
        rep.executions,
        rep.points,
        rep.outcomes.len(),
        rep.deviating,
        rep.max_deviations,
        if rep.capped { "CAPPED, " } else { "" },
        wall
    );
    for e in rep.engine_errors.iter().take(5) {
        eprintln!("engine: {e}");
    }
    if !fresh.is_empty() {
        return 1;
    }
    if !rep.engine_errors.is_empty() {
        return 3;
    }
    0
}

fn child_replay() -> i32 {
    explore::install_panic_hook();
    mctape::set_fast_kdf(true);
    let text = std::fs::read_to_string("replay.txt").unwrap();
    let get = |k: &str| text.lines().find_map(|l| l.strip_prefix(&format!("{k}="))).unwrap_or_default().to_string();
    let (id, tier, name) = (get("property"), get("tier"), get("job"));
    let choices: Vec<u32> = get("choices").split(',').filter(|s| !s.is_empty()).map(|s| s.parse().unwrap()).collect();
    let list = checks();
    let c = list.iter().find(|c| c.id == id).expect("property");
    let jobs = (c.jobs)(tier == "thorough");
    let job = jobs.iter().find(|j| j.name == name).expect("job");
    let (v, ex, e) = explore::replay(job, &choices);
    for p in ex.trace() {
        println!("  {} -> {} of {}", p.label, p.choice, p.n);
    }
    for n in ex.notes() {
        println!("  | {n}");
    }
    if let Some(e) = e {
        eprintln!("engine: {e}");
        return 3;
    }
    match v {
        Some(v) => {
            println!("violated: {}", v.msg);
            1
        }
        None => {
            println!("holds");
            0
        }
    }
}

const NOBODY: u32 = 65534;

struct Scratch(PathBuf);
impl Drop for Scratch {
    fn drop(&mut self) {
        assert!(self.0.starts_with("/tmp/") && self.0.to_string_lossy().contains("/volaris-mc-"));
        let _ = std::fs::remove_dir_all(&self.0);
    }
}

fn scratch() -> Scratch {
    let mut t = *b"/tmp/volaris-mc-XXXXXX\0";
    let p = unsafe { libc::mkdtemp(t.as_mut_ptr().cast()) };
    assert!(!p.is_null(), "mkdtemp");
    let p = PathBuf::from(std::str::from_utf8(&t[..t.len() - 1]).unwrap());
    use std::os::unix::fs::PermissionsExt;
    std::fs::set_permissions(&p, std::fs::Permissions::from_mode(0o755)).unwrap();
    Scratch(p)
}

/// Runs this program in a scratch directory as an unprivileged user.
fn contained(dir: &Path, args: &[&str], limit: Duration) -> (Option<i32>, String) {
    use std::os::unix::process::{CommandExt, ExitStatusExt};
    let exe = std::env::current_exe().unwrap();
    let bin = dir.join("bin");
    std::fs::create_dir_all(&bin).unwrap();
    for name in ["mc", "volaris-cli", "libmcshim.so"] {
        let from = exe.parent().unwrap().join(name);
        if from.exists() {
            std::fs::copy(&from, bin.join(name)).unwrap();
        }
    }
    let work = dir.join("work");
    let tmp = dir.join("tmp");
    let home = dir.join("home");
    for d in [&work, &tmp, &home] {
        std::fs::create_dir_all(d).unwrap();
    }
    let root = unsafe { libc::geteuid() } == 0;
    let mut cmd = Command::new(bin.join("mc"));
    cmd.args(args).current_dir(&work).env("TMPDIR", &tmp).env("HOME", &home).env("MC_BIN", &bin).env("MC_SCRATCH", dir);
    if root {
        for d in [&work, &tmp, &home] {
            std::os::unix::fs::chown(d, Some(NOBODY), Some(NOBODY)).unwrap();
        }
        for e in std::fs::read_dir(&work).unwrap() {
            std::os::unix::fs::chown(e.unwrap().path(), Some(NOBODY), Some(NOBODY)).unwrap();
        }
        cmd.uid(NOBODY).gid(NOBODY);
    }
    cmd.process_group(0);
    let out = dir.join("stdout");
    cmd.stdout(std::fs::File::create(&out).unwrap());
    cmd.stdin(std::process::Stdio::null());
    if std::env::var_os("MC_DEBUG").is_none() {
        // dependencies report every injected failure
        cmd.stderr(std::fs::File::create(dir.join("stderr")).unwrap());
    }
    let mut ch = cmd.spawn().expect("starting the exploration");
    let start = Instant::now();
    let code = loop {
        if let Some(s) = ch.try_wait().unwrap() {
            break match s.code() {
                Some(c) => Some(c),
                None => Some(1000 + s.signal().unwrap_or(0)),
            };
        }
        if start.elapsed() > limit {
            unsafe { libc::kill(-(ch.id() as i32), libc::SIGKILL) };
            let _ = ch.wait();
            break None;
        }
        std::thread::sleep(Duration::from_millis(20));
    };
    unsafe { libc::kill(-(ch.id() as i32), libc::SIGKILL) };
    (code, String::from_utf8_lossy(&std::fs::read(&out).unwrap_or_default()).into_owned())
}

fn parent(id: &str, tier: &str) -> i32 {
    let list = checks();
    let Some(c) = list.iter().find(|c| c.id == id) else {
        eprintln!("no such check: {id}");
        return 3;
    };
    let verif = PathBuf::from(std::env::var("MC_VERIF").unwrap_or_else(|_| "/verif".into()));
    let s = scratch();
    let start = Instant::now();
    std::fs::create_dir_all(s.0.join("work")).unwrap();
    if let Ok(k) = std::fs::read(verif.join("KNOWN_FINDINGS.txt")) {
        std::fs::write(s.0.join("work/known.txt"), k).unwrap();
    }
    let limit = Duration::from_secs(if tier == "thorough" { 6 * 3600 } else { 840 });
    let (mut code, mut out) = contained(&s.0, &["child", id, tier], limit);
    print!("{out}");
    let again;
    let mut s = &s;
    if code == Some(3) && start.elapsed() < limit / 2 {
        // something depended on what ran beside it, or before: once more, one execution at a time
        eprintln!("{}", std::fs::read_to_string(s.0.join("stderr")).unwrap_or_default().lines().filter(|l| l.starts_with("engine")).collect::<Vec<_>>().join("\n"));
        println!("one execution at a time:");
        again = scratch();
        std::fs::create_dir_all(again.0.join("work")).unwrap();
        if let Ok(k) = std::fs::read(verif.join("KNOWN_FINDINGS.txt")) {
            std::fs::write(again.0.join("work/known.txt"), k).unwrap();
        }
        std::env::set_var("MC_WORKERS", "1");
        std::env::set_var("MC_WALL", (limit - start.elapsed()).as_secs().saturating_sub(60).to_string());
        (code, out) = contained(&again.0, &["child", id, tier], limit - start.elapsed());
        print!("{out}");
        if code == Some(0) && out.contains("CAPPED") {
            code = Some(3);
        }
        s = &again;
    }
    let replays = verif.join("out/replays");
    std::fs::create_dir_all(&replays).unwrap();
    std::fs::create_dir_all(verif.join("evidence")).unwrap();
    let ev = verif.join(format!("evidence/{id}.json"));
    let crash = |what: String| {
        // the code under test ended the process or never returned
        let f = Found {
            job: what.clone(),
            choices: vec![],
            trace: vec![],
            viol: explore::Viol { msg: what, sig: String::new() },
            notes: vec![],
        };
        let p = replays.join(format!("{id}-0.txt"));
        std::fs::write(&p, replay_text(id, tier, &f)).unwrap();
        let rep = Report { executions: 1, samples: vec![f.viol.msg.clone()], ..Default::default() };
        std::fs::write(&ev, evidence(c, tier, &rep, start.elapsed().as_secs_f64(), 1)).unwrap();
        println!("VIOLATION property={id} replay={}", p.display());
        1
    };
    match code {
        Some(n @ (0 | 1)) => {
            if let Err(e) = std::fs::copy(s.0.join("work/evidence.json"), &ev) {
                eprintln!("no evidence: {e}");
                return 3;
            }
            if n == 0 {
                return 0;
            }
            let mut any = false;
            for i in 0.. {
                let from = s.0.join(format!("work/replay-{i}.txt"));
                if !from.exists() {
                    break;
                }
                let to = replays.join(format!("{id}-{i}.txt"));
                std::fs::copy(from, &to).unwrap();
                println!("VIOLATION property={id} replay={}", to.display());
                any = true;
            }
            if any {
                1
            } else {
                eprintln!("no replay");
                3
            }
        }
        Some(7) => crash(format!("an execution does not terminate: {}", out.lines().find(|l| l.starts_with("HANG")).unwrap_or(""))),
        Some(n) if n == 1000 + libc::SIGABRT || n == 1000 + libc::SIGSEGV || n == 1000 + libc::SIGBUS || n == 1000 + libc::SIGILL => {
            crash(format!("the code under test crashed the process (signal {})", n - 1000))
        }
        None => {
            eprintln!("time limit");
            4
        }
        Some(n) => {
            let err = std::fs::read(s.0.join("stderr")).unwrap_or_default();
            eprintln!("{}", String::from_utf8_lossy(&err[err.len().saturating_sub(3000)..]));
            eprintln!("exploration ended with {n}");
            3
        }
    }
}

fn main() -> ExitCode {
    let args: Vec<String> = std::env::args().collect();
    let a: Vec<&str> = args.iter().map(|s| s.as_str()).collect();
    let code = match a[1..] {
        ["run", id] => parent(id, "quick"),
        ["run", id, tier @ ("quick" | "thorough")] => parent(id, tier),
        ["child", id, tier] => child(id, tier),
        ["child-replay"] => child_replay(),
        ["replay", file] => {
            let s = scratch();
            std::fs::create_dir_all(s.0.join("work")).unwrap();
            std::fs::copy(file, s.0.join("work/replay.txt")).unwrap();
            let (c, out) = contained(&s.0, &["child-replay"], Duration::from_secs(600));
            print!("{out}");
            c.unwrap_or(4)
        }
        ["golden"] => {
            p_crypto::make_golden(&Path::new(env!("CARGO_MANIFEST_DIR")).join("golden"));
            0
        }
        ["list"] => {
            for c in checks() {
                println!("{}", c.id);
            }
            0
        }
        _ => {
            eprintln!("usage: mc run ID [quick|thorough] | mc replay FILE | mc list");
            2
        }
    };
    ExitCode::from(code.clamp(0, 255) as u8)
}
