#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from spec.py and the registered checks in props.py."""
import json, os, sys
here = os.path.dirname(os.path.abspath(__file__))
root = os.path.dirname(here)
sys.path[:0] = [here, root]
from spec import P
from props import PROPS
with open(os.path.join(root, "properties.jsonl"), "w") as f:
    for q in P:
        assert len(q["title"]) <= 80, q["id"]
        n = q["statement"].replace("e.g.", "").count(". ") + 1
        assert n <= 3, (q["id"], n)
        f.write(json.dumps(dict(id=q["id"], title=q["title"], statement=q["statement"],
            quantifier=dict(over=q["over"], text=q["quant"]), why_tests_cant=q["why"],
            anchors=dict(files=q["files"], mechanism=q["mech"], observe_at=q["observe"], hook_needed=None))) + "\n")
checks, na = [], []
for q in P:
    if q["id"] in PROPS:
        checks.append(dict(property=q["id"],
            quick_cmd="python3 check.py --prop %s --tier quick" % q["id"],
            thorough_cmd="python3 check.py --prop %s --tier thorough" % q["id"],
            technique=q["technique"], level=PROPS[q["id"]]["level"], level_note=q["note"]))
    else:
        na.append(dict(property=q["id"], reason="The check is not built yet."))
with open(os.path.join(root, "MANIFEST.json"), "w") as f:
    json.dump(dict(version=1, setup_cmd="python3 check.py --setup", checks=checks, not_applicable=na,
        notes="No hooks in /repo are needed; the checks build /repo's sources with instrumentation of their own."), f, indent=1)
    f.write("\n")

# DESIGN.md
import glob, re
tpl = open(os.path.join(here, "DESIGN.in.md")).read()
out = []
for q in P:
    out.append("### %s %s\n" % (q["id"], q["title"]))
    out.append(q["statement"] + "\n")
    if q["id"] in PROPS:
        c = PROPS[q["id"]]
        out.append("*Technique:* %s. *Oracle and bounds:* %s\n" % (q["technique"], q["note"]))
        out.append("*Workload:* %s\n" % c["rule"])
        out.append("*Cost:* %s. *Quantified over:* %s. *Why the tests cannot settle it:* %s\n" % (
            "; ".join("%s build: %d cases quick, %d thorough" % (p_["variant"], p_["quick"], p_["thorough"]) for p_ in c["parts"]),
            q["quant"], q["why"]))
    else:
        out.append("Not built yet. Plan: %s. %s\n" % (q["technique"], q["note"]))
findings = []
known = 0
for line in open(os.path.join(root, "known_findings.txt")):
    m = re.match(r"(fixed|known): property=(\S+) (\S+) (.*)", line)
    if m:
        known += m.group(1) == "known"
        findings.append("* %s%s: %s (%s)" % ("known, not repaired: " if m.group(1) == "known" else "", m.group(2), m.group(4), m.group(3)))
caught = dict(l.strip().split(None, 1) for l in open(os.path.join(here, "caught.txt")) if l.strip())
seeds = ["| bug | property | breaks | needs | caught by |", "|---|---|---|---|---|"]
for d in sorted(glob.glob(os.path.join(root, "seeded", "*", "meta.json"))):
    m = json.load(open(d))
    n = os.path.basename(os.path.dirname(d))
    seeds.append("| %s | %s | %s | %s | %s |" % (n, m["property"], m["what_it_breaks"], m["needs"], caught.get(n, "?")))
tpl = tpl.replace("@PROPS@", "\n".join(out)).replace("@FINDINGS@", "\n".join(findings)).replace("@SEEDS@", "\n".join(seeds))
tpl = tpl.replace("@FALSE@", open(os.path.join(here, "false_alarms.md")).read())
tpl = tpl.replace("@NKNOWN@", "There are %d known findings that are not repaired." % known if known else "There is no known finding that is not repaired.")
open(os.path.join(root, "DESIGN.md"), "w").write(tpl)
