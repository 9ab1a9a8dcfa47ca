#!/usr/bin/env python3
"""Regenerates /verif/MANIFEST.json and /verif/DESIGN.md from registry.py, properties.jsonl, design_head.md, KNOWN_FINDINGS.txt and seeded/."""
import json, os, sys
R = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, R)
from registry import CHECKS, NOT_APPLICABLE
props = [json.loads(l) for l in open(os.path.join(R, "properties.jsonl"))]
checks, na = [], []
for p in props:
    i = p["id"]
    if i in CHECKS:
        c = CHECKS[i]
        checks.append({"property": i, "quick_cmd": "python3 run.py %s --tier quick" % i, "thorough_cmd": "python3 run.py %s --tier thorough" % i,
                       "evidence_file": "evidence/%s.json" % i,
                       "technique": "property-based testing: generated inputs/histories against an explicit oracle, with shrinking to a replay file",
                       "level": "exploration", "level_note": c["note"]})
    else:
        na.append({"property": i, "reason": NOT_APPLICABLE.get(i, "check not built yet")})
json.dump({"version": 1, "setup_cmd": "sh ./setup.sh", "checks": checks, "not_applicable": na,
           "notes": "Each check compiles /repo's current headers and sources with AddressSanitizer and runs generated cases; a replay is run with: python3 run.py <ID> --replay <file>."},
          open(os.path.join(R, "MANIFEST.json"), "w"), indent=1)
o = [open(os.path.join(R, "tools", "design_head.md")).read().rstrip(), "", "## Properties and how each is decided", ""]
for p in props:
    i = p["id"]
    o.append("### %s %s" % (i, p["title"])); o.append("")
    if i in CHECKS:
        c = CHECKS[i]
        o += [c["design"].strip(), "", "Case and non-triviality rule: " + c["rule"] + ".", "", "Bounds: " + c["note"].strip(), "", "Why tests cannot: " + p["why_tests_cant"] + "."]
    else:
        o.append("Not claimed: " + NOT_APPLICABLE.get(i, "check not built yet") + ".")
    o.append("")
kf = os.path.join(R, "KNOWN_FINDINGS.txt")
if os.path.exists(kf):
    o += ["## Defects found", "", "`fixed` entries are repaired by a commit in /repo, `known` entries are left and reported by the check.", ""]
    o += ["- " + l.strip() for l in open(kf) if l.startswith(("known:", "fixed:"))]
    o.append("")
sd = os.path.join(R, "seeded")
res = {}
rf = os.path.join(R, "tools", "seeded_results.json")
if os.path.exists(rf): res = json.load(open(rf))
if os.path.isdir(sd):
    o += ["## Planted bugs", "", "Which check catches which planted change (quick tier, seed 1).", "", "| change | property | what it breaks | needs | caught by |", "|---|---|---|---|---|"]
    for d in sorted(os.listdir(sd)):
        m = json.load(open(os.path.join(sd, d, "meta.json")))
        o.append("| %s | %s | %s | %s | %s |" % (d, m["property"], m["what_it_breaks"], m["needs"], res.get(d, "?")))
    o.append("")
tail = os.path.join(R, "tools", "design_tail.md")
if os.path.exists(tail): o.append(open(tail).read())
open(os.path.join(R, "DESIGN.md"), "w").write("\n".join(o).rstrip() + "\n")
print(len(checks), "claimed,", len(na), "not claimed")
