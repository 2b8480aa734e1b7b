#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from the tables in props.py."""
import json, os
from props import PROPS, NOT_APPLICABLE
from checks import CHECKS
here = os.path.dirname(os.path.abspath(__file__))
with open(os.path.join(here, "properties.jsonl"), "w") as f:
    for p in PROPS:
        over = [{"faults": "fault_sequences"}.get(x, x) for x in p["over"].split(",")]
        f.write(json.dumps({"id": p["id"], "title": p["title"], "statement": p["statement"],
                            "quantifier": {"over": over, "text": p["all"]}, "why_tests_cant": p["why"],
                            "anchors": {"files": p["files"], "mechanism": [{"name": n, "where": w} for n, w in p["mech"]],
                                        "observe_at": p["observe"], "hook_needed": None}}) + "\n")
        assert len(p["title"]) <= 80, p["id"]
checks = []
for p in PROPS:
    if p["id"] in CHECKS:
        checks.append({"property": p["id"], "quick_cmd": "./check.py " + p["id"], "thorough_cmd": "VERIF_TIER=thorough ./check.py " + p["id"],
                       "technique": "symbolic execution of the compiled code (LLVM IR of /repo's crate) with Z3",
                       "level": "model_checking", "level_note": p["note"]})
na = [{"property": k, "reason": v} for k, v in NOT_APPLICABLE.items()]
for p in PROPS:
    assert (p["id"] in CHECKS) != (p["id"] in NOT_APPLICABLE), p["id"]
json.dump({"version": 1, "setup_cmd": "./check.py --setup", "checks": checks, "not_applicable": na,
           "notes": "No hooks in /repo: the harness crates use the public API; /repo carries only fix: commits (see known-findings.txt)."},
          open(os.path.join(here, "MANIFEST.json"), "w"), indent=1)

MARK = "## Per property\n"
path = os.path.join(here, "DESIGN.md")
text = open(path).read().split(MARK)[0]
out = [text, MARK, "\n(written by gen.py from props.py and checks.py)\n"]
for p in PROPS:
    out.append("\n### %s: %s\n%s\n\nOver %s. Tests: %s.\n" % (p["id"], p["title"], p["statement"], p["all"], p["why"]))
    if p["id"] in NOT_APPLICABLE:
        out.append("\nNot applicable: %s\n" % NOT_APPLICABLE[p["id"]])
        continue
    note = p["note"].split("Z3. ", 1)[-1]
    out.append("\n%s\n\n" % note)
    for h in CHECKS[p["id"]]["harnesses"]:
        th = h["thorough"]
        out.append("* `%s::%s` quick %s%s: %s\n" % (h["crate"], h["name"], h["quick"], " thorough %s" % th if th else "", h["bounds"] or "as elsewhere"))
open(path, "w").write("".join(out))
