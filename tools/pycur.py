#!/usr/bin/env python3
"""Show the current Python summaries: pycur.py PATTERN [width] [deep]; pycur.py --all prints failures only."""
import os, re, sys, time, traceback
sys.path.insert(0, os.path.join(os.path.dirname(__file__), "..", "lib"))
sys.setrecursionlimit(100000)
import pyabs, pyterm
pkg = pyabs.Package(os.environ.get("VERIF_REPO", "/repo") + "/src/vmecpp")
if sys.argv[1] == "--all":
    bad = {}
    for q, f in sorted(pkg.fns.items()):
        for deep in (False, True):
            t0 = time.time()
            try:
                r = pyabs.Interp(pkg, set(pkg.fns), deep).run(f)
                if r["bad"]:
                    print(q, deep, r["bad"])
            except Exception as e:
                tb = traceback.extract_tb(e.__traceback__)[-1]
                print("CRASH", q, deep, type(e).__name__, str(e)[:100], tb.name, tb.lineno)
            if time.time() - t0 > 3:
                print("slow", q, deep, time.time() - t0)
    sys.exit()
w = int(sys.argv[2]) if len(sys.argv) > 2 else 400
for q, f in sorted(pkg.fns.items()):
    if re.search(sys.argv[1], q):
        r = pyabs.Interp(pkg, set(pkg.fns), len(sys.argv) > 3).run(f)
        print("==", q, r["bad"])
        for s in r["sig"]:
            print("  sig", str(s)[:w])
        print("  ret", str(r["ret"])[:w])
        for c, us in r["ev"].items():
            for u in us:
                print("  ", c, str(u)[:w])
        for x in r["raises"]:
            print("  raise", str(x)[:w])
