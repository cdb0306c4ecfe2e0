#!/usr/bin/env python3
"""Runs the quick checks against the planted bugs: score.py [ID...]. Applies each
to /repo, and undoes it."""
import json, os, subprocess, sys, time
S = "/verif/seeded"
ids = sys.argv[1:] or sorted(os.listdir(S))
missed = []
assert not subprocess.run("git -C /repo status --short", shell=True, capture_output=True, text=True).stdout.strip()
for i in ids:
    prop = json.load(open("%s/%s/meta.json" % (S, i)))["property"]
    subprocess.run(["git", "-C", "/repo", "apply", "%s/%s/patch.diff" % (S, i)], check=True)
    t = time.time()
    try:
        p = subprocess.run(["python3", "check.py", prop, "--quick"], cwd="/verif", capture_output=True, text=True)
    finally:
        subprocess.run(["git", "-C", "/repo", "checkout", "--", "."], check=True)
    ok = p.returncode == 1 and "VIOLATION property=%s " % prop in p.stdout
    lines = [l for l in p.stdout.splitlines() if " shown by " in l or l.startswith("ERROR")]
    print("%-8s %-24s %s rc=%d %.0f s  %s" % ("caught" if ok else "MISSED", i, prop, p.returncode, time.time() - t, (lines or [""])[0][:300]), flush=True)
    if not ok:
        missed.append(i)
print("%d of %d caught; missed: %s" % (len(ids) - len(missed), len(ids), " ".join(missed)))
