#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json (run from /verif after a build: python3 tools/gen_manifest.py)."""
import json, subprocess
MC="stateless exhaustive exploration of the real code, checked against an executable reference model"
FE="exhaustive fault-point enumeration on the real code (every call index x every failure kind)"
SCHED="exhaustive thread-schedule exploration of the real code under a controlled scheduler (preemption bounded)"
BFS="breadth-first state exploration with the real handlers as transition function, against a reference model"
CLI="exhaustive enumeration of command lines, answers and crash/fault points of the real command under a libc shim"
N={
"C01":("model_checking",MC,"Every combination of the listed plaintext sizes (block boundaries included), contents, password classes, AEADs, KDFs, versions and header placements; memory-hard KDF part skipped."),
"C02":("model_checking",MC,"Every bounded sequence of short reads, partial writes and interruptions of a model stream; results must equal the unsplit run."),
"C03":("model_checking",MC,"Every bit flip, every length, every block sequence up to the depth, every header exchange of sample files of all versions, AEADs and modes."),
"C04":("model_checking",MC,"Every neighbour of every password class for all versions and KDFs; says nothing about passwords outside the classes."),
"C05":("model_checking",MC,"Files of every version made by an independent implementation, plus golden files made with the real KDFs."),
"C06":("model_checking",MC,"Every output is opened by an independent implementation of the format that shares only the AEAD/KDF/BLAKE3 crates."),
"C07":("model_checking",MC,"Every header value of the domains and every single-byte change of valid headers, against an independent parser."),
"C08":("model_checking",MC,"Every truncation, every byte value and every tag combination of valid files, every damaged archive of the lists, into every operation; overflow checks on."),
"C09":("model_checking",MC,"Every operation history up to the bound over the enumerated entropies; trusts the rand crate's expansion."),
"C10":("model_checking",BFS,"All reachable key-slot states up to the depth over a small password alphabet; the real handlers are the transition function."),
"C11":("model_checking",BFS,"All transitions of the reachable key-slot graph, failing ones included, and single faults; frame compared byte for byte."),
"C12":("model_checking",BFS,"All dump/strip/restore/key histories up to the depth on real files of versions 3-5."),
"C13":("fault_enumeration",FE,"One fault (error, zero-length transfer) at every call of every operation; pairs in the thorough tier."),
"C14":("fault_enumeration",FE,"One fault at every storage and stream call of pack and unpack over the model file system."),
"C15":("model_checking",MC,"Every tree of the families up to the bounds over a model file system bound to the real one by C24, plus real directories."),
"C16":("model_checking",MC,"Every entry name over the component alphabet up to the depth; every path handed to storage must stay below the target."),
"C17":("fault_enumeration",FE,"Every failure point of pack/unpack and every crash-free exit; temporary archive must be overwritten and removed."),
"C18":("model_checking",MC,"Every pass count and size of the lists, every bounded sequence of partial writes and faults, operation log inspected."),
"C19":("model_checking",SCHED,"All schedules of the real erase threads up to the preemption bound at storage/stream operations."),
"C20":("model_checking",SCHED,"All schedules of the real unpack threads up to the preemption bound at storage/stream operations."),
"C21":("model_checking",MC,"Every operation over the model file system and streams; sources compared and every mutation of them reported."),
"C22":("model_checking",MC,"Every size and bounded sequence of short reads against the reference hash."),
"C23":("model_checking",MC,"Every value of every random draw of passphrase generation through the generator seam."),
"C24":("model_checking",BFS,"All operation sequences up to the depth of the real FileStorage against a model file system."),
"C25":("model_checking",MC,"Every released heap block of every operation is searched for the secrets (allocator spy); registers and stack are not seen."),
"C26":("model_checking",MC,"Every size around block boundaries, every nonce length, every block sequence up to the bound, through the real streams."),
"C27":("model_checking",MC,"Every algorithm, parameter version, password class and single-bit change; real functions compared with fixed values."),
"C28":("model_checking",SCHED,"All schedules of pairs of operations up to 1-3 preemptions (thorough: one more), on the model and on disk; all pairs of commands with the first stopped at every call (some pairs, thorough all: both stopped)."),
"C29":("model_checking",MC,"All lists of entries up to 3 (thorough 4) with all answers, all header kinds and changes, every single fault (thorough: pairs); every call of a callback is judged."),
"C30":("model_checking",CLI,"All subcommands with all subsets of options of the lists, run as real processes."),
"C31":("fault_enumeration",CLI,"Kill, error and short write at every libc call of each erasing command, observed on disk afterwards."),
"C32":("model_checking",CLI,"All combinations of existing targets, spellings, links and answers at prompts."),
"C33":("fault_enumeration",CLI,"Every failure cause of the lists and an injected error at every libc call: exit 0 implies the complete result."),
"C34":("model_checking",CLI,"All combinations of key sources and contents."),
}
for i in "C01 C02 C04 C08 C13 C14 C15 C16 C17 C18 C21 C22".split():N[i]=N[i][:2]+(N[i][2]+" Also through the real command run as a process.",)
have=set(subprocess.check_output(["./check.sh","list"],text=True).split())
ids=[json.loads(l)["id"] for l in open("properties.jsonl")]
assert set(ids)==set(N),set(ids)^set(N)
m={"version":1,"setup_cmd":"./check.sh build",
"hooks":{"guard":"cfg(volaris_mc)","enable":'RUSTFLAGS="--cfg volaris_mc"',"source_commits":["d3c0fc2"]},
"checks":[{"property":i,"quick_cmd":f"./check.sh {i} quick","thorough_cmd":f"./check.sh {i} thorough","technique":N[i][1],"level":N[i][0],"level_note":N[i][2]} for i in ids if i in have],
"not_applicable":[{"property":i,"reason":"no check yet: in construction"} for i in ids if i not in have],
"notes":"All checks run one Rust harness (/verif/harness) built against /repo's working tree; see DESIGN.md."}
open("MANIFEST.json","w").write(json.dumps(m,indent=1,ensure_ascii=False)+"\n")
print(len(m["checks"]),"checks",len(m["not_applicable"]),"not claimed")
