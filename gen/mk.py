#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json (one source for both)."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(V, "lib"))
P = []


def p(id, title, statement, over, text, why, files, mech, technique=None, note=None, na=None):
    P.append(dict(id=id, title=title, statement=statement, over=over, text=text, why=why, files=files, mech=mech,
                  technique=technique, note=note, na=na))


exec(open(os.path.join(V, "gen", "props.py")).read())
import registry
with open(os.path.join(V, "properties.jsonl"), "w") as f:
    for x in P:
        f.write(json.dumps({
            "id": x["id"], "title": x["title"], "statement": x["statement"],
            "quantifier": {"over": x["over"], "text": x["text"]},
            "why_tests_cant": x["why"],
            "anchors": {"files": x["files"], "mechanism": [{"name": a, "where": b} for a, b in x["mech"]],
                        "hook_needed": None}}) + "\n")
checks, na = [], []
for x in P:
    if x["id"] in registry.CHECKS:
        checks.append({"property": x["id"], "quick_cmd": "./check %s quick" % x["id"],
                       "thorough_cmd": "./check %s thorough" % x["id"], "evidence_file": "evidence/%s.json" % x["id"],
                       "technique": x["technique"] or "TLA+ specification checked with TLC; TLC behaviours and seeded call sequences replayed in the real code and every recorded event validated against the specification with TLC",
                       "level": "model_checking",
                       "level_note": x["note"] or "Exhaustive in the stated scope of the model; the binding to the code is as strong as the replayed transitions and random histories. Trusts TLC, the JSON projection of the driver and g++."})
    else:
        na.append({"property": x["id"], "reason": x["na"] or "no check registered yet"})
json.dump({"version": 1, "setup_cmd": "true", "checks": checks, "not_applicable": na},
          open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "checks,", len(na), "not applicable")
