#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json from mc/registry.py and properties.jsonl."""
import json, os, sys

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)
sys.dont_write_bytecode = True
from mc import registry

ids = [json.loads(l)["id"] for l in open(os.path.join(HERE, "properties.jsonl"))]
checks = []
na = []
for i in ids:
    m = registry.META.get(i)
    if m is None:
        na.append({"property": i, "reason": "no check has been built for it yet"})
        continue
    checks.append({
        "property": i,
        "quick_cmd": f"./run.py {i} quick",
        "thorough_cmd": f"./run.py {i} thorough",
        "evidence_file": f"evidence/{i}.json",
        "technique": m["technique"],
        "level": m["level"],
        "level_note": m["level_note"],
    })
man = {
    "version": 1,
    "setup_cmd": "./run.py --self-test",
    "checks": checks,
    "not_applicable": na,
    "notes": "The code is pure Python: every check imports /repo/vistautils as it is, in worker processes that run as an unprivileged user with only a scratch directory; nothing is built and no hooks are needed in /repo.",
}
with open(os.path.join(HERE, "MANIFEST.json"), "w") as f:
    json.dump(man, f, indent=1)
    f.write("\n")
print(len(checks), "checks,", len(na), "not claimed")
