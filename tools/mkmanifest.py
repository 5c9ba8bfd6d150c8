#!/usr/bin/env python3
"""Writes MANIFEST.json from properties.jsonl, mc/groups.json and the notes below."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(V + "/properties.jsonl")]
groups = json.load(open(V + "/mc/groups.json"))
notes = json.load(open(V + "/tools/notes.json"))
checks, na = [], []
for p in props:
    i = p["id"]
    if i in groups and i in notes:
        t, n = notes[i]
        checks.append({"property": i, "quick_cmd": "./check %s --tier quick" % i,
                       "thorough_cmd": "./check %s --tier thorough" % i,
                       "evidence_file": "evidence/%s.json" % i,
                       "technique": t, "level": "model_checking", "level_note": n})
    else:
        na.append({"property": i, "reason": notes.get("na:" + i, "no check built yet")})
m = {"version": 1, "setup_cmd": "./check --build",
     "hooks": {"guard": "none", "enable": "no hooks: the checks use the public interfaces of /repo's crates", "source_commits": []},
     "checks": checks, "not_applicable": na,
     "notes": "All checks enumerate bounded spaces exhaustively and run the real code on every element; see DESIGN.md."}
json.dump(m, open(V + "/MANIFEST.json", "w"), indent=1)
