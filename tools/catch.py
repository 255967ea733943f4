#!/usr/bin/env python3
"""catch.py [ID...]: run the check of each planted bug's property against it (applies to /repo, undoes it)."""
import json, os, subprocess, sys, time
R = "/verif/seeded"
ids = sys.argv[1:] or sorted(os.listdir(R))
assert not subprocess.run(["git", "-C", "/repo", "status", "--porcelain"], capture_output=True, text=True).stdout.strip()
for i in ids:
    p = json.load(open(f"{R}/{i}/meta.json"))["property"]
    t = time.time()
    try:
        a = subprocess.run(["git", "-C", "/repo", "apply", f"{R}/{i}/patch.diff"])
        assert a.returncode == 0, i
        r = subprocess.run(["python3", "/verif/check.py", p], capture_output=True, text=True, env=dict(os.environ, VERIF_SEED="1", VERIF_TIER="quick"))
    finally:
        subprocess.run(["git", "-C", "/repo", "checkout", "--", "."])
    v = [l for l in r.stdout.splitlines() if l.startswith("VIOLATION")]
    print(f"{i:28} {p} rc={r.returncode} {time.time()-t:5.0f}s {v[:1]}", flush=True)
    if r.returncode not in (0, 1):
        print(r.stdout[-500:], r.stderr[-800:])
