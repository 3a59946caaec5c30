#!/usr/bin/env python3
"""bugbatch.py SPEC.py [ids]: apply each edit of BUGS=[(id, property, [(file, old, new)...])] to a scratch clone, run that property's check (dev aid)."""
import os, subprocess, sys, runpy, shutil
from concurrent.futures import ThreadPoolExecutor
os.environ["GIT_LFS_SKIP_SMUDGE"] = "1"
spec = runpy.run_path(sys.argv[1]); names = sys.argv[2:]
N = int(os.environ.get("N", "3"))
HEAD = subprocess.check_output(["git", "-C", "/repo", "rev-parse", "HEAD"], text=True).strip()
def prep(k):
    w = "/tmp/bugwork%d" % k
    if not os.path.isdir(w):
        subprocess.check_call(["git", "clone", "-q", "/repo", w])
    subprocess.check_call(["git", "-C", w, "fetch", "-q", "origin"])
    subprocess.check_call(["git", "-C", w, "reset", "-q", "--hard", HEAD])
    return w
free = [prep(k) for k in range(N)]
def job(b):
    w = free.pop()
    try:
        for f, old, new in b[2]:
            p = os.path.join(w, f); t = open(p).read()
            if t.count(old) != 1:
                return b[0] + " EDIT MATCHES %d: %s" % (t.count(old), old[:60])
            open(p, "w").write(t.replace(old, new))
        out = []
        for prop in b[1].split(","):
            r = subprocess.run([sys.executable, "/verif/check.py", prop, "quick"], cwd="/verif", capture_output=True, text=True, env=dict(os.environ, VERIF_REPO=w, VERIF_EVIDENCE="/tmp/bugev"))
            out.append("%s rc=%d %s" % (prop, r.returncode, "" if r.returncode == 1 else "MISSED " + r.stdout[-350:] + r.stderr[-300:]))
        return "%-28s " % b[0] + " | ".join(out)
    finally:
        subprocess.check_call(["git", "-C", w, "checkout", "-q", "--", "."])
        free.append(w)
with ThreadPoolExecutor(N) as ex:
    for r in ex.map(job, [b for b in spec["BUGS"] if not names or b[0] in names]):
        print(r, flush=True)
