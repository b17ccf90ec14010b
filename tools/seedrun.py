#!/usr/bin/env python3
"""Development aid: run the check of every planted bug (or those named) against a scratch copy with the bug applied."""
import os, sys, json, subprocess, time, glob
REPO = "/tmp/seedrun/repo"


def sh(cmd):
    return subprocess.run(cmd, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)


os.makedirs("/tmp/seedrun", exist_ok=True)
if not os.path.exists(REPO):
    sh("git clone -q /repo " + REPO)
ids = [a for a in sys.argv[1:] if "=" not in a]
opt = dict(a.split("=", 1) for a in sys.argv[1:] if "=" in a)
for d in sorted(glob.glob("/verif/seeded/*/")):
    i = os.path.basename(d.rstrip("/"))
    if ids and i not in ids:
        continue
    sh("cd %s && git fetch -q /repo HEAD && git reset -q --hard FETCH_HEAD && git clean -fdq" % REPO)
    r = sh("git -C %s apply %spatch.diff" % (REPO, d))
    if r.returncode:
        print(i, "DOES NOT APPLY", r.stdout[:200])
        continue
    meta = json.load(open(d + "meta.json"))
    for p in opt.get("props", meta["property"]).split(","):
        t0 = time.time()
        r = sh("cd /verif && VP_REPO=%s ./check %s --seed %s" % (REPO, p, opt.get("seed", "1")))
        line = [l for l in r.stdout.splitlines() if l.startswith(("violated", "ok", "INCONC"))]
        print("%-34s %s rc=%d %3.0fs %s" % (i, p, r.returncode, time.time() - t0, (line or [r.stdout[-300:]])[0][:230]))
        sys.stdout.flush()
