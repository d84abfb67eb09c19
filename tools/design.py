#!/usr/bin/env python3
"""DESIGN.md = tools/DESIGN.head.md + one section per property + seeded changes and findings + tools/DESIGN.tail.md"""
import glob, json, os, sys
R = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..")
sys.path.insert(0, os.path.join(R, "lib"))
import checks as C
o = [open(os.path.join(R, "tools/DESIGN.head.md")).read().rstrip(), "", "## Properties", ""]
for l in open(os.path.join(R, "properties.jsonl")):
    p = json.loads(l)
    c = C.CHECKS.get(p["id"])
    o.append("### %s %s" % (p["id"], p["title"]))
    if c is None:
        o += ["Not claimed: " + C.NOT_APPLICABLE.get(p["id"], "no check built yet"), ""]
        continue
    o.append("* Entries: " + ", ".join("`%s/%s` (%d parameter tuples quick, %d thorough)" % (e["area"], e["name"], len(e["quick"]), len(e["thorough"])) for e in c["entries"]))
    if c.get("how"):
        o.append("* How: " + c["how"])
    o.append("* Bounds: quick: %s; thorough: %s" % (c["bounds"]["quick"], c["bounds"]["thorough"]))
    o.append("* Outside: " + c["outside"])
    o.append("")
o += ["## Planted changes", "", "Each is confirmed: builds, passes the stable tests, demo fails with it and passes without. *caught by* is filled from the last run of the property's quick check against it.", ""]
for m in sorted(glob.glob(os.path.join(R, "seeded/*/meta.json"))):
    j = json.load(open(m))
    o.append("* `%s` (%s): %s. Needs: %s. %s" % (os.path.basename(os.path.dirname(m)), j["property"], j["what_it_breaks"], j["needs"], "Caught by " + j["caught_by"] + "." if j.get("caught_by") else "Not caught."))
o += ["", "## Findings", ""]
for f in json.load(open(os.path.join(R, "known-findings.json")))["findings"]:
    o.append("* %s (%s): %s" % (f["id"], f["status"], f["what"]))
t = os.path.join(R, "tools/DESIGN.tail.md")
if os.path.exists(t):
    o += ["", open(t).read().rstrip()]
open(os.path.join(R, "DESIGN.md"), "w").write("\n".join(o) + "\n")
