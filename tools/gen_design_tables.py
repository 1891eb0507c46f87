#!/usr/bin/env python3
"""Rewrites the generated parts of DESIGN.md (between the markers) from the evidence files of the last
quick runs and from seeded/*/meta.json (+ seeded/caught.json, which tools/seeded.py writes)."""
import glob, json, os, re
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
def put(text, name, body):
    a, b = f"<!-- begin {name} -->", f"<!-- end {name} -->"
    i, j = text.index(a) + len(a), text.index(b)
    return text[:i] + "\n" + body + text[j:]
rows = ["| check | space | cases (quick) | bound |", "| --- | --- | --- | --- |"]
for f in sorted(glob.glob(V + "/evidence/C*.json")):
    e = json.load(open(f))
    if e["tier"] != "quick":
        raise SystemExit(f"{f} is of a {e['tier']} run")
    for name, s in e["coverage"]["spaces"].items():
        rows.append(f"| {e['property']} | {name} | {s['cases']} | {s['bound'].replace('|', '/')} |")
t = open(V + "/DESIGN.md").read()
t = put(t, "spaces", "\n".join(rows) + "\n")
rows = ["| change | breaks | needs | caught by |", "| --- | --- | --- | --- |"]
caught = json.load(open(V + "/tools/seeded_results.json")) if os.path.exists(V + "/tools/seeded_results.json") else {}
for f in sorted(glob.glob(V + "/seeded/*/meta.json")):
    i = f.split("/")[-2]
    m = json.load(open(f))
    rows.append("| %s | %s | %s | %s |" % (i, m["property"], m["needs"].replace("|", "/").replace("\n", " "), ", ".join(caught.get(i, ["?"]) or ["none"])))
t = put(t, "seeded", "\n".join(rows) + "\n")
open(V + "/DESIGN.md", "w").write(t)
