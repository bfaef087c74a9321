#!/usr/bin/env python3
"""Runs the checks against planted bugs:  hunt.py [ID...]   (applies each to /repo and takes it back)."""
import json, os, subprocess, sys, time
S = "/verif/seeded"
ids = sys.argv[1:] or sorted(os.listdir(S))
for i in ids:
    m = json.load(open("%s/%s/meta.json" % (S, i)))
    p = subprocess.run(["git", "-C", "/repo", "status", "--porcelain", "-uno"], capture_output=True, text=True)
    assert p.stdout.strip() == "", "/repo is not clean"
    r = subprocess.run(["git", "-C", "/repo", "apply", "%s/%s/patch.diff" % (S, i)])
    if r.returncode:
        print(i, "does not apply")
        continue
    t = time.time()
    try:
        p = subprocess.run(["python3", "/verif/check.py", m["property"], "quick"], capture_output=True, text=True, env=dict(os.environ, VERIF_SEED="1"))
    finally:
        subprocess.run(["git", "-C", "/repo", "checkout", "-q", "--", "."])
    v = [l for l in p.stdout.splitlines() if l.startswith("VIOLATION property=%s " % m["property"])]
    print(i, m["property"], "caught" if p.returncode == 1 and v else "MISSED rc=%d" % p.returncode, "%.0fs" % (time.time() - t), p.stdout.splitlines()[0][:170] if p.stdout else p.stderr[-300:], flush=True)
