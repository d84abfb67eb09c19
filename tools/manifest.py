#!/usr/bin/env python3
"""Writes MANIFEST.json from properties.jsonl and lib/checks.py."""
import json, os, sys
R = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..")
sys.path.insert(0, os.path.join(R, "lib"))
import checks as C
props = [json.loads(l) for l in open(os.path.join(R, "properties.jsonl"))]
checks = []
for p in props:
    if p["id"] not in C.CHECKS:
        continue
    s = C.CHECKS[p["id"]]
    ents = sorted({"%s/%s" % (e["area"], e["name"]) for e in s["entries"]})
    checks.append({
        "property": p["id"],
        "quick_cmd": "python3 check.py %s quick" % p["id"],
        "thorough_cmd": "python3 check.py %s thorough" % p["id"],
        "technique": "symbolic execution of the real code's LLVM IR with an SMT solver (own engine, Z3): " + ", ".join(ents),
        "level": "model_checking",
        "level_note": "exhaustive within bounds: " + s["bounds"]["quick"] + " (quick); " + s["bounds"]["thorough"] + " (thorough). Outside: " + s["outside"],
    })
na = [{"property": p["id"], "reason": C.NOT_APPLICABLE.get(p["id"], "no check built yet")} for p in props if p["id"] not in C.CHECKS]
m = {"version": 1, "setup_cmd": "bash symx/build.sh",
     "hooks": {"guard": "none", "enable": "no hooks: harness crates use only public API of /repo's crates (path dependencies)", "source_commits": []},
     "checks": checks, "not_applicable": na,
     "notes": "One symbolic executor (symx/) over rustc's LLVM bitcode; harness crates in harness/; lib/checks.py lists what each check explores; known-findings.json lists fixed and known defects. Exit 2 means no verdict."}
json.dump(m, open(os.path.join(R, "MANIFEST.json"), "w"), indent=1)
