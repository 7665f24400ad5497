#!/usr/bin/env python3
"""Writes MANIFEST.json from the table below and the check modules present."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
T = {}


def t(id, technique, note, level="exploration"):
    T[id] = (technique, note, level)


exec(open(os.path.join(V, "tools", "checks_table.py")).read())
props = [json.loads(l) for l in open(os.path.join(V, "properties.jsonl"))]
checks, na = [], []
for p in props:
    i = p["id"]
    if i in T and os.path.exists(os.path.join(V, "lib", "c_%s.py" % i.lower())):
        tech, note, level = T[i]
        checks.append({"property": i, "quick_cmd": "python3 check.py %s quick" % i,
                       "thorough_cmd": "python3 check.py %s thorough" % i,
                       "evidence_file": "evidence/%s.json" % i, "technique": tech, "level": level, "level_note": note})
    else:
        na.append({"property": i, "reason": "check not built yet"})
m = {"version": 1, "setup_cmd": "bash setup.sh",
     "hooks": {"guard": "none", "enable": "no hooks in /repo: the harnesses interpose at link time (--wrap) or by "
               "macros defined before including the library's headers", "source_commits": []},
     "checks": checks, "not_applicable": na,
     "notes": "Every check builds its own instrumented executables from /repo's working tree in /verif/.work."}
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "checks,", len(na), "not claimed")
