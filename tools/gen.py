#!/usr/bin/env python3
"""Generates properties.jsonl and MANIFEST.json from the table below (only properties that have a check)."""
import json, os, re, subprocess, sys
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []

def prop(id, title, statement, over, text, why, files, mechanism, note, state=(), observe=(), level="model_checking", technique=None):
    assert len(title) <= 80, (id, len(title))
    P.append(dict(id=id, title=title, statement=statement, over=over, text=text, why=why, files=files, mechanism=mechanism,
                  note=note, state=state, observe=observe, level=level, technique=technique))

exec(open(os.path.join(ROOT, "tools", "properties.py")).read())

src = "".join(open(os.path.join(ROOT, "harness/checks", f)).read() for f in os.listdir(os.path.join(ROOT, "harness/checks")) if f.endswith(".go"))
have = set(re.findall(r'"(C\d\d)"', src))
P.sort(key=lambda p: p["id"])
with open(os.path.join(ROOT, "properties.jsonl"), "w") as f:
    for p in P:
        if p["id"] not in have:
            continue
        d = {"id": p["id"], "title": p["title"], "statement": p["statement"],
             "quantifier": {"over": p["over"], "text": p["text"]}, "why_tests_cant": p["why"],
             "anchors": {"files": p["files"], "state": [dict(zip(("name", "meaning", "where"), s)) for s in p["state"]],
                         "mechanism": [dict(zip(("name", "where"), m)) for m in p["mechanism"]],
                         "observe_at": list(p["observe"]), "hook_needed": None}}
        f.write(json.dumps(d, ensure_ascii=False) + "\n")
T = "stateless model checking of the real code: exhaustive enumeration of every execution of closed drivers (inputs, histories, environment choices) within stated bounds, each compared with an independent reference model"
m = {"version": 1, "setup_cmd": "./setup.sh", "checks": [], "not_applicable": [],
     "notes": "One explorer (harness/mc) drives the unmodified library; ./check.sh ID quick|thorough, ./check.sh replay FILE. No hooks in /repo."}
for p in P:
    if p["id"] not in have:
        continue
    m["checks"].append({"property": p["id"], "quick_cmd": "./check.sh %s quick" % p["id"], "thorough_cmd": "./check.sh %s thorough" % p["id"],
                        "evidence_file": "evidence/%s.json" % p["id"], "technique": p["technique"] or T, "level": p["level"], "level_note": p["note"]})
json.dump(m, open(os.path.join(ROOT, "MANIFEST.json"), "w"), indent=1, ensure_ascii=False)
print("claimed:", len(m["checks"]), "missing text:", sorted(have - {p["id"] for p in P}), "no check yet:", sorted({p["id"] for p in P} - have))
