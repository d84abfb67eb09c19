#!/usr/bin/env python3
"""check.py PROPERTY TIER: decide one property by symbolic execution of the real code.

1. builds the symbolic executor and the property's harness crate (which has path
   dependencies on /repo's crates), producing a native binary and the LLVM bitcode of
   the same whole program, regenerated from /repo's working tree;
2. explores every harness entry of the property symbolically, within the tier's bounds;
3. replays every counterexample, and a sample of explored paths, on the native binary;
4. writes evidence/PROPERTY.json and prints VIOLATION / KNOWN-FINDING lines.

exit 0: held on everything explored; 1: violation; 2: no verdict (incomplete,
build failure, or the executor disagrees with the native code)."""
import concurrent.futures as cf
import glob
import json
import os
import re
import shutil
import subprocess
import sys
import time

ROOT = os.path.dirname(os.path.abspath(__file__))
BUILD = os.path.join(ROOT, "build")
sys.path.insert(0, os.path.join(ROOT, "lib"))
import checks as C  # noqa: E402

MEM = {"leak", "double-free", "use-after-free", "out-of-bounds", "null-dereference", "invalid-pointer", "invalid-free",
       "layout-mismatch", "uninitialised-use", "invalid-value", "misaligned-access", "write-to-readonly", "unreachable",
       "assume-violated", "overlapping-copy", "zero-size-alloc", "bad-alignment", "invalid-call", "huge-allocation",
       "stack-overflow", "abort", "division-by-zero"}


def log(*a):
    print(*a, file=sys.stderr, flush=True)


def sh(cmd, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **kw)


def build_engine():
    r = sh([os.path.join(ROOT, "symx/build.sh")])
    exe = os.path.join(BUILD, "symx/release/symx")
    if r.returncode != 0 or not os.path.exists(exe):
        log(r.stdout[-4000:])
        return None
    return exe


def build_harness(area):
    r = sh([os.path.join(ROOT, "harness/build.sh"), area])
    tgt = os.path.join(BUILD, "h-" + area, "release")
    exe = os.path.join(tgt, "h-" + area)
    bcs = glob.glob(os.path.join(tgt, "deps", "h_%s-*.lto.after-restriction.bc" % area.replace("-", "_")))
    if r.returncode != 0 or not os.path.exists(exe) or not bcs:
        log(r.stdout[-6000:])
        return None
    bcs.sort(key=os.path.getmtime)
    return exe, bcs[-1]


def native(exe, entry, inp, params, plain=False, valgrind=False, timeout=60):
    env = dict(os.environ)
    cmd = [exe, entry, inp, ",".join(map(str, params))]
    if plain or valgrind:
        env["SYMX_PLAIN"] = "1"
    if valgrind:
        cmd = ["valgrind", "-q", "--error-exitcode=97", "--leak-check=full", "--errors-for-leak-kinds=definite",
               "--undef-value-errors=yes"] + cmd
    try:
        r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, env=env, timeout=timeout)
    except subprocess.TimeoutExpired:
        return {"status": "TIMEOUT", "msg": "", "out": "", "rc": -1, "wit": 0, "err": ""}
    o = {"status": "CRASH", "msg": "exit %d" % r.returncode, "out": "", "rc": r.returncode, "wit": 0,
         "err": r.stderr.decode("utf8", "replace")[-3000:]}
    for l in r.stdout.decode("utf8", "replace").splitlines():
        if l.startswith("OUT "):
            o["out"] = l[4:].strip()
        elif l.startswith("WIT "):
            o["wit"] = int(l[4:])
        elif l.startswith("SHORT-INPUT"):
            o["short"] = True
        elif l.startswith("STATUS "):
            p = l[7:].split(" ", 1)
            o["status"] = p[0]
            o["msg"] = p[1] if len(p) > 1 else ""
    return o


def miri(area, entry, inp, params):
    """Last resort for undefined behaviour that leaves no trace in a native run."""
    env = dict(os.environ)
    env["SYMX_PLAIN"] = "1"
    env["CARGO_NET_OFFLINE"] = "true"
    env["RUSTUP_TOOLCHAIN"] = "nightly"
    env["CARGO_TARGET_DIR"] = os.path.join(BUILD, "miri-" + area)
    env["MIRIFLAGS"] = "-Zmiri-disable-isolation -Zmiri-permissive-provenance"
    env.pop("RUSTFLAGS", None)
    try:
        r = subprocess.run(["cargo", "miri", "run", "--offline", "--", entry, inp or '""', ",".join(map(str, params))],
                           cwd=os.path.join(ROOT, "harness", area), env=env, stdout=subprocess.PIPE,
                           stderr=subprocess.STDOUT, text=True, timeout=400)
    except subprocess.TimeoutExpired:
        return False, "miri timeout"
    m = re.search(r"error: (Undefined Behavior: .*|memory leaked.*|abnormal termination.*)", r.stdout)
    return bool(m), (m.group(0) if m else r.stdout[-500:])


def confirm(area, exe, entry, params, e):
    """Does the native code really show this error on this input? -> (bool, how)"""
    k = e["kind"]
    n = native(exe, entry, e["input"], params)
    if k == "panic":
        return n["status"] == "PANIC", n
    if k == "check-failed":
        return n["status"] == "CHECK-FAILED" and n["msg"].strip() == e["msg"].replace("\n", " ").strip(), n
    if k == "leak" and n["status"] == "LEAK":
        return True, n
    if k != "leak" and n["status"] in ("MEMORY", "CRASH"):
        return True, n
    if k == "abort" and n["status"] in ("PANIC", "CRASH"):
        return True, n
    if k == "stack-overflow" and n["status"] in ("CRASH", "TIMEOUT"):
        return True, n
    if k == "huge-allocation" and n["status"] in ("PANIC", "CRASH", "OK"):
        return True, n
    v = native(exe, entry, e["input"], params, valgrind=True)
    if v["rc"] == 97 or v["status"] == "CRASH":
        v["status"] = "VALGRIND"
        return True, v
    # the native run may show the same misbehaviour through another symptom
    if n["status"] in ("CHECK-FAILED", "PANIC", "LEAK"):
        return True, n
    ok, txt = miri(area, entry, e["input"], params)
    return ok, {"status": "MIRI", "msg": txt, "out": "", "rc": 0, "err": ""}


def known_match(kf, pid, entry, e):
    for f in kf:
        if f.get("status") == "fixed" or f["property"] != pid:
            continue
        if f.get("entry") and not re.fullmatch(f["entry"], entry):
            continue
        if f.get("kind") and f["kind"] != e["kind"]:
            continue
        if f.get("msg") and not re.search(f["msg"], e["msg"]):
            continue
        if f.get("in_function") and not any(re.search(f["in_function"], x) for x in e["fns"][:f.get("depth", 40)]):
            continue
        return f
    return None


def main():
    pid, tier = sys.argv[1], sys.argv[2]
    only = sys.argv[3] if len(sys.argv) > 3 else None
    t0 = time.time()
    spec = C.CHECKS[pid]
    kf = json.load(open(os.path.join(ROOT, "known-findings.json")))["findings"]
    areas = sorted({e["area"] for e in spec["entries"]})
    os.makedirs(BUILD, exist_ok=True)
    eng = build_engine()
    if not eng:
        log("cannot build the symbolic executor")
        return 2
    built = {}
    for a in areas:
        b = build_harness(a)
        if not b:
            log("cannot build harness", a, "against /repo")
            return 2
        built[a] = b
    tb = time.time() - t0
    budget = spec.get("budget", {}).get(tier, 420 if tier == "quick" else 780)
    results = []
    problems = []
    partial = []
    deadline = time.time() + budget
    for a in areas:
        ents = []
        for e in spec["entries"]:
            if e["area"] != a or (only and not re.search(only, e["name"])):
                continue
            for p in e.get(tier, e.get("quick", [[]])):
                ents.append((e, p))
        groups = {}
        for e, p in ents:
            groups.setdefault((e.get("steps", 0), e.get("alloc_cap", 0), e.get("depth", 0)), []).append((e, p))
        for (steps, cap, depth), es in groups.items():
            out = os.path.join(BUILD, "res-%s-%s-%d.json" % (pid, a, len(results)))
            if os.path.exists(out):
                os.unlink(out)
            cmd = [eng, "--bc", built[a][1], "--out", out, "--time", "%.1f" % max(10, deadline - time.time()),
                   *(["--hurry", "--total", "%.1f" % max(30, t0 + 700 - time.time())] if tier == "quick" else []),
                   "--samples", "24" if tier == "quick" else "64"]
            if steps:
                cmd += ["--steps", str(steps)]
            if cap:
                cmd += ["--alloc-cap", str(cap)]
            if depth:
                cmd += ["--depth", str(depth)]
            for e, p in es:
                cmd += ["--entry", e["name"] + (":" + ",".join(map(str, p)) if p else "")]
            try:
                r = sh(cmd, timeout=max(60, 3 * budget))
            except subprocess.TimeoutExpired:
                problems.append("symbolic executor timed out")
                continue
            if r.returncode != 0 or not os.path.exists(out):
                log(r.stdout[-3000:])
                problems.append("symbolic executor failed on area " + a)
                continue
            d = json.load(open(out))
            for (e, p), res in zip(es, d["entries"]):
                res["area"] = a
                res["spec"] = e
                res["module_functions"] = d["module_functions"]
                res["z3"] = d["z3"]
                results.append(res)
    violations, known_hit, seen_known = [], {}, set()
    other = []
    validated = mism = 0
    jobs = []
    pool = cf.ThreadPoolExecutor(8)
    for res in results:
        exe = built[res["area"]][0]
        for s in res["samples"]:
            jobs.append((res, s, pool.submit(native, exe, res["entry"], s["input"], res["params"])))
    for res, s, j in jobs:
        n = j.result()
        want = "PANIC" if s["panicked"] else "OK"
        if n["status"] == want and n["out"] == s["out"] and not n.get("short"):
            validated += 1
        else:
            mism += 1
            problems.append("path of %s%s with input %s behaves differently natively: %s %s, expected %s %s" % (
                res["entry"], res["params"], s["input"], n["status"], n["out"][:200] + " " + n["msg"][:200], want, s["out"][:200]))
    rep_dir = os.path.join(ROOT, "replays")
    os.makedirs(rep_dir, exist_ok=True)
    for f in glob.glob(os.path.join(rep_dir, pid + "-*.json")):
        os.unlink(f)
    for res in results:
        exe = built[res["area"]][0]
        for inc, n in res["incomplete"].items():
            partial.append("%s%s incomplete: %s (x%d)" % (res["entry"], res["params"], inc, n))
        if res["incomplete"] and not res["paths_done"] and not res["errors"]:
            problems.append("%s%s: nothing could be explored" % (res["entry"], res["params"]))
        need = res["spec"].get("witness", 0)
        if need & ~res["witness"] and not res["errors"] and not res["incomplete"]:
            problems.append("%s%s: expected situations not reached (witness %#x of %#x)" % (res["entry"], res["params"], res["witness"], need))
        todo = []
        for e in res["errors"]:
            if not re.fullmatch(spec.get("errors", ".*"), e["kind"] + ": " + e["msg"], re.S):
                other.append({"entry": res["entry"], "params": res["params"], "kind": e["kind"], "message": e["msg"], "input": e["input"]})
                continue
            f = known_match(kf, pid, res["entry"], e)
            if f:
                seen_known.add(f["id"])
                continue
            todo.append(e)
        for e in todo[:24]:
            if len(violations) >= 12:
                break
            ok, how = confirm(res["area"], exe, res["entry"], res["params"], e)
            if not ok:
                problems.append("%s%s: %s (%s) on input %s not reproduced natively: %s" % (
                    res["entry"], res["params"], e["kind"], e["msg"], e["input"], {k: str(v)[:200] for k, v in how.items()}))
                continue
            path = os.path.join(rep_dir, "%s-%d.json" % (pid, len(violations)))
            cmdl = "SYMX_PLAIN= %s %s %s %s" % (exe, res["entry"], e["input"] or "''", ",".join(map(str, res["params"])))
            json.dump({"property": pid, "entry": res["entry"], "params": res["params"], "kind": e["kind"], "message": e["msg"],
                       "input": e["input"], "trace": e["trace"], "native": how, "command": cmdl}, open(path, "w"), indent=1)
            violations.append((res, e, path))
    if sum(1 for r in results if r["incomplete"]) > len(results) / 2:
        problems.append("most entries could not be explored in full")
    listed = [f for f in kf if f["property"] == pid and f.get("status") != "fixed"]
    for f in listed:
        # re-confirm the listed finding on the real code when it names a concrete input
        print("KNOWN-FINDING: property=%s %s" % (pid, f["what"]))
    for res, e, path in violations:
        print("VIOLATION property=%s replay=%s" % (pid, path))
        log("  %s%s: %s: %s input=%s" % (res["entry"], res["params"], e["kind"], e["msg"], e["input"]))
        for t in e["trace"][:8]:
            log("      " + t)
    for p in problems:
        log("PROBLEM:", p)
    for p in partial[:40]:
        log("INCOMPLETE:", p)
    repo_fns = set()
    lib_fns = set()
    for res in results:
        for f in res["functions"]:
            (repo_fns if re.search(r"facet", f) else lib_fns).add(f)
    S = lambda k: sum(r[k] for r in results)  # noqa: E731
    ev = {
        "property": pid, "tier": tier, "seed": int(os.environ.get("VERIF_SEED", "1")),
        "level": "model_checking",
        "coverage": {
            "states": S("states"), "transitions": S("steps"), "traces_validated_against_impl": validated,
            "samples": [{"entry": r["entry"], "params": r["params"], "input": s["input"], "output": s["out"][:400], "steps": s["steps"]}
                        for r in results for s in r["samples"][:2]][:20],
            "exhaustive_within_bounds": not problems and not partial,
            "entries": [{k: r[k] for k in ("entry", "params", "wall_s", "states", "paths_done", "paths_panic", "paths_error", "paths_infeasible", "steps", "checks",
                                           "checks_symbolic", "max_sym_bytes", "max_forks", "max_heap_allocs", "queries", "finite", "cache_hits", "sat",
                                           "unsat", "unknown", "solver_s", "max_query_s")} for r in results],
            "bounds": spec.get("bounds", {}).get(tier, spec.get("bounds", {}).get("text", "")),
            "outside": spec.get("outside", ""),
            "functions_encoded_repo": sorted(repo_fns),
            "functions_encoded_other": len(lib_fns),
            "queries": S("queries"), "finite_domain_queries": S("finite"), "query_cache_hits": S("cache_hits"), "solver_s": round(S("solver_s"), 2),
            "solver": "Z3 " + (results[0]["z3"] if results else "?"),
            "build_s": round(tb, 1),
            "native_mismatches": mism,
        },
        "wall_s": round(time.time() - t0, 2),
        "assumptions": C.ASSUMPTIONS + spec.get("assumptions", []),
        "violations": [{"entry": r["entry"], "kind": e["kind"], "message": e["msg"], "input": e["input"], "replay": p} for r, e, p in violations],
    }
    ev["coverage"]["problems"] = problems
    ev["coverage"]["not_explored"] = partial[:40]
    ev["coverage"]["errors_of_other_properties"] = other[:20]
    ev["coverage"]["known_findings_listed"] = [f["id"] for f in listed]
    ev["coverage"]["known_findings_hit"] = sorted(seen_known)
    os.makedirs(os.path.join(ROOT, "evidence"), exist_ok=True)
    json.dump(ev, open(os.path.join(ROOT, "evidence", pid + ".json"), "w"), indent=1)
    log("%s %s: %d entries, %d states, %d steps, %d queries (%.1f s solver), %d paths validated natively, %.1f s" % (
        pid, tier, len(results), S("states"), S("steps"), S("queries"), S("solver_s"), validated, time.time() - t0))
    if violations:
        return 1
    if problems:
        return 2
    return 0


if __name__ == "__main__":
    sys.exit(main())
