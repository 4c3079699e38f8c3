#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from tools/props.py (run by hand after editing that file)."""
import json, os, sys
here = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, here)
from props import PROPS, NOT_APPLICABLE
root = os.path.dirname(here)
with open(os.path.join(root, "properties.jsonl"), "w") as f:
    for p in PROPS:
        files = p["files"]
        f.write(json.dumps({
            "id": p["id"], "title": p["title"], "statement": p["statement"],
            "quantifier": {"over": p["over"], "text": p["quant"]},
            "why_tests_cant": p["why"],
            "anchors": {"files": files, "mechanism": [{"name": n, "where": w} for n, w in p["mech"]],
                        "observe_at": p.get("observe", []), "hook_needed": None},
        }) + "\n")
        assert len(p["title"]) <= 80, p["id"]
checks = [{
    "property": p["id"], "quick_cmd": "bash run.sh %s" % p["id"], "thorough_cmd": "bash run.sh %s tier=thorough" % p["id"],
    "evidence_file": "evidence/%s.json" % p["id"], "technique": p["technique"], "level": "model_checking", "level_note": p["note"],
} for p in PROPS if p.get("claimed", True)]
na = [{"property": p["id"], "reason": "check under construction"} for p in PROPS if not p.get("claimed", True)] + NOT_APPLICABLE
json.dump({"version": 1, "setup_cmd": "bash build.sh", "checks": checks, "not_applicable": na},
          open(os.path.join(root, "MANIFEST.json"), "w"), indent=1)

# DESIGN.md from tools/DESIGN.in
import os as _os
_V=_os.path.dirname(_os.path.dirname(_os.path.abspath(__file__)))
if _os.path.isdir(_V+'/seeded'):
    rows=['| id | property | needs | caught by |','|----|----|----|----|']
    missed=dict(l.split(None,1) for l in open(_V+'/tools/missed.txt').read().strip().split('\n') if l)
    for d in sorted(_os.listdir(_V+'/seeded')):
        m=json.load(open(f'{_V}/seeded/{d}/meta.json'))
        rows.append(f"| {d} | {m['property']} | {m['needs']} | {missed.get(d, m['property']).strip()} |")
    s=open(_V+'/tools/DESIGN.in').read()
    more=open(_V+'/tools/DESIGN.more').read().strip() if _os.path.exists(_V+'/tools/DESIGN.more') else ''
    open(_V+'/DESIGN.md','w').write(s.replace('@@SEEDS@@','\n'.join(rows)).replace('@@MORE@@\n',more+'\n' if more else ''))
