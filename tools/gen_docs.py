#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from tools/props.py (one list, so that the two never drift apart)."""
import json, os, sys
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, ROOT + "/tools")
from props import PROPS
with open(ROOT + "/properties.jsonl", "w") as f:
    for p in PROPS:
        assert len(p["title"]) <= 80, p["title"]
        f.write(json.dumps({"id": p["id"], "title": p["title"], "statement": p["statement"],
            "quantifier": {"over": p["over"], "text": p["for"]}, "why_tests_cant": p["why"],
            "anchors": {"files": p["files"], "mechanism": [{"name": a, "where": b} for a, b in p["mech"]]}}) + "\n")
TECH = "bounded symbolic execution of the LLVM IR of the real functions, obligations decided by Z3 (bit-vectors, LRA, NRA), counterexamples replayed natively"
m = {"version": 1, "setup_cmd": "python3 check.py --setup", "checks": [], "not_applicable": [],
     "notes": "No hooks in /repo. tools/gen_docs.py regenerates this file and properties.jsonl from tools/props.py."}
for p in PROPS:
    if p.get("na"):
        m["not_applicable"].append({"property": p["id"], "reason": p["na"]})
    else:
        m["checks"].append({"property": p["id"], "quick_cmd": "VERIF_TIER=quick python3 check.py " + p["id"], "thorough_cmd": "VERIF_TIER=thorough python3 check.py " + p["id"],
            "technique": p.get("tech", TECH), "level": "model_checking",
            "level_note": p["note"] + " Holds for every value within the stated bounds; real arithmetic is exact (rounding outside the claim), denominators met on a path are assumed non-zero, models of libm/libstdc++/MPI/streams are trusted."})
json.dump(m, open(ROOT + "/MANIFEST.json", "w"), indent=1)
# DESIGN.md: method (tools/design_head.md), one entry per property, what planted changes are caught, findings
import glob, re
runs = {}
for f in sorted(glob.glob(ROOT + "/harness/*.cpp")):
    for l in open(f):
        if l.startswith("//@run "):
            j = json.loads(l[7:])
            runs.setdefault(j["prop"], []).append((os.path.basename(f), j))
out = [open(ROOT + "/tools/design_head.md").read().rstrip() + "\n"]
COST = json.load(open(ROOT + "/tools/cost.json")) if os.path.exists(ROOT + "/tools/cost.json") else {}
for p in PROPS:
    out.append("### %s %s\n" % (p["id"], p["title"]))
    out.append(p["statement"] + "\n")
    if p.get("na"):
        out.append("Not applicable: " + p["na"] + "\n")
        continue
    out.append("Decided over: " + p["for"] + ". Why tests cannot: " + p["why"] + " " + p["note"] + ("" if p["id"] not in COST else " Cost of the quick check: about %d s on 8 cores." % COST[p["id"]]) + "\n")
    out.append("| harness | entry | symbolic inputs and bounds | tier |\n|---|---|---|---|")
    for f, j in runs.get(p["id"], []):
        out.append("| %s | %s | %s | %s |" % (f, j["entry"], j["bounds"].replace("|", "\\|"), j.get("tier", "quick")))
    out.append("")
seeds = []
for d in sorted(glob.glob(ROOT + "/seeded/*/meta.json")):
    m = json.load(open(d))
    seeds.append("| %s | %s | %s | %s | %s |" % (os.path.basename(os.path.dirname(d)), m["property"], m["what_it_breaks"].replace("|", "/"), m["needs"].replace("|", "/"), m.get("caught", "yes")))
out.append("## Planted changes (seeded/) and the checks that catch them\n\nEach was confirmed in a scratch copy: it builds, the stable tests pass, its demo fails with it and passes without.\n\n| id | property (= check that must catch it) | what it breaks | needs | caught |\n|---|---|---|---|---|\n" + "\n".join(seeds) + "\n")
k = json.load(open(ROOT + "/known_findings.json"))
out.append("## Defects found in DNDSR\n\nRepaired (`fix:` commits in /repo):\n\n" + "\n".join("* " + x for x in k["fixed"]) + "\n\nRecorded, not repaired (known_findings.json; the checks print KNOWN-FINDING):\n\n" + "\n".join("* %s `%s`: %s" % (x["property"], x["entry"], x["what"]) for x in k["findings"]) + "\n")
if os.path.exists(ROOT + "/tools/design_tail.md"): out.append(open(ROOT + "/tools/design_tail.md").read())
open(ROOT + "/DESIGN.md", "w").write("\n".join(out))
