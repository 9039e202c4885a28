#!/usr/bin/env python3
"""Applies planted bugs to /repo one at a time, runs the check of their property, undoes them.
usage: runseeds.py [id ...]"""
import os, sys, json, subprocess, time, glob
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ids = sys.argv[1:] or sorted(os.path.basename(x) for x in glob.glob(V + "/seeded/*"))
for i in ids:
    if not os.path.exists(f"{V}/seeded/{i}/meta.json"):
        continue
    p = json.load(open(f"{V}/seeded/{i}/meta.json"))["property"]
    subprocess.run(["git", "-C", "/repo", "apply", f"{V}/seeded/{i}/patch.diff"], check=True)
    t = time.time()
    try:
        r = subprocess.run(["python3", V + "/run.py", "check", p], cwd=V, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    finally:
        subprocess.run(["git", "-C", "/repo", "checkout", "-q", "--", "."], check=True)
    v = [l for l in r.stdout.splitlines() if l.startswith("VIOLATION")]
    print(f"{i:18} rc={r.returncode} {time.time()-t:5.0f}s", "CAUGHT" if r.returncode == 1 and any(f"property={p} " in l for l in v) else "MISSED", (v or r.stdout.splitlines()[-2:])[0][:110], flush=True)
