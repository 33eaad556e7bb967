#!/usr/bin/env python3
"""Source of properties.jsonl and MANIFEST.json (run: python3 tools/props.py)."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P, CHECKS, NA = [], [], []


def prop(id, title, st, over, q, why, files, mech, observe=None, state=None, tech=None, note=None, na=None, level="other"):
    d = {"id": id, "title": title, "statement": st, "quantifier": {"over": over, "text": q}, "why_tests_cant": why,
         "anchors": {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}}
    assert len(title) <= 80, (id, len(title))
    if observe:
        d["anchors"]["observe_at"] = observe
    if state:
        d["anchors"]["state"] = [{"name": a, "meaning": b, "where": c} for a, b, c in state]
    P.append(d)
    if na:
        NA.append({"property": id, "reason": na})
    elif tech:
        CHECKS.append({"property": id, "quick_cmd": "python3-vt an/run.py %s" % id,
                       "thorough_cmd": "python3-vt an/run.py %s --tier thorough" % id,
                       "technique": tech, "level": level, "level_note": note})


exec(open(os.path.join(V, "tools", "props_data.py")).read())

P.sort(key=lambda d: d["id"])
CHECKS.sort(key=lambda d: d["property"])
with open(os.path.join(V, "properties.jsonl"), "w") as f:
    for d in P:
        f.write(json.dumps(d, ensure_ascii=False) + "\n")
json.dump({"version": 1, "setup_cmd": "python3 an/setup.py", "checks": CHECKS, "not_applicable": NA,
           "notes": "All checks inspect /repo's current sources (clang front end -> canonical LLVM IR -> repository-specific analyses in an/). Nothing of /repo is executed. No hooks are used."},
          open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
print(len(P), "properties,", len(CHECKS), "checks,", len(NA), "not applicable")
