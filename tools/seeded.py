#!/usr/bin/env python3
"""Applies each seeded change to a scratch copy of /repo, runs the quick checks of the given
properties (default: the change's own property; --all: every check) and records which notice it in
tools/seeded_results.json.  A means of measuring; no check reads it."""
import argparse, glob, json, os, shutil, subprocess, sys, tempfile
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ap = argparse.ArgumentParser()
ap.add_argument("ids", nargs="*")
ap.add_argument("--all", action="store_true")
a = ap.parse_args()
out = V + "/tools/seeded_results.json"
res = json.load(open(out)) if os.path.exists(out) else {}
ids = sorted(d.split("/")[-2] for d in glob.glob(V + "/seeded/*/meta.json"))
res = {i: r for i, r in res.items() if i in ids}
for i in ids:
    if a.ids and not any(i.startswith(x) for x in a.ids):
        continue
    m = json.load(open(f"{V}/seeded/{i}/meta.json"))
    w = tempfile.mkdtemp(prefix="seeded")
    try:
        shutil.copytree("/repo", w + "/r", symlinks=True)
        subprocess.check_call(["git", "apply", f"{V}/seeded/{i}/patch.diff"], cwd=w + "/r")
        os.chmod(w, 0o755)
        checks = ["C%02d" % k for k in range(1, 46)] if a.all else [m["property"]]
        hits = []
        for c in checks:
            p = subprocess.run([sys.executable, V + "/run.py", c, "quick"], env=dict(os.environ, VERIF_REPO=w + "/r"), stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
            if p.returncode == 1:
                hits.append(c)
            elif p.returncode:
                hits.append(f"{c}(rc={p.returncode})")
        res[i] = hits
        print(i, m["property"], hits, flush=True)
    finally:
        shutil.rmtree(w, ignore_errors=True)
json.dump(res, open(out, "w"), indent=0, sort_keys=True)
