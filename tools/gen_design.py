#!/usr/bin/env python3
"""Writes /verif/DESIGN.md from tools/design.md.in, the evidence of a quick run and tools/seed_results.tsv."""
import json, os, re
os.chdir(os.path.join(os.path.dirname(__file__), ".."))
s = open("tools/design.md.in").read()
rows = []
keep = "tools/design_numbers.json"
numbers = json.load(open(keep)) if os.path.exists(keep) else {}
for l in open("properties.jsonl"):
    i = json.loads(l)["id"]
    f = f"evidence/{i}.json"
    if os.path.exists(f):
        e = json.load(open(f))
        if e["tier"] == "quick":
            c = e["coverage"]
            n = {k: v for k, v in c.items() if isinstance(v, int) and k in ("states", "transitions", "runs", "fault_points", "executions", "scenarios", "commands_run", "schedules", "evaluations")}
            numbers[i] = {"n": n, "s": round(e["wall_s"])}
    n = numbers.get(i, {"n": {}, "s": "?"})
    rows.append(f"| {i} | " + ", ".join(f"{v} {k.replace('_',' ')}" for k, v in n["n"].items()) + f" | {n['s']} |")
json.dump(numbers, open(keep, "w"), indent=0)
s = s.replace("@@TABLE@@", "\n".join(rows))
res = {}
for l in open("tools/seed_results.tsv"):
    a = l.rstrip("\n").split("\t")
    res[a[0]] = a[1:]
out = ["| planted bug | property | what it breaks | caught by |", "| --- | --- | --- | --- |"]
for d in sorted(os.listdir("seeded")):
    m = json.load(open(f"seeded/{d}/meta.json"))
    r = res.get(d, ["not run", ""])
    w = re.sub(r"\s+", " ", m["what_it_breaks"])
    out.append(f"| {d} | {m['property']} | {w[:160]} | {r[0]} |")
s = s.replace("@@SEEDS@@", "\n".join(out))
open("DESIGN.md", "w").write(s)
