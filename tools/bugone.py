"""bugone.py SPEC ID FNREGEX [width]: how the summaries of matching functions change under a bugspec entry (dev aid)."""
import os, re, runpy, subprocess, sys
os.environ["GIT_LFS_SKIP_SMUDGE"] = "1"
b = next(x for x in runpy.run_path(sys.argv[1])["BUGS"] if x[0] == sys.argv[2])
w = "/tmp/bugone"
if not os.path.isdir(w):
    subprocess.check_call(["git", "clone", "-q", "/repo", w])
subprocess.check_call(["git", "-C", w, "fetch", "-q", "origin"])
subprocess.check_call(["git", "-C", w, "reset", "-q", "--hard", subprocess.check_output(["git", "-C", "/repo", "rev-parse", "HEAD"], text=True).strip()])
for f, old, new in b[2]:
    p = os.path.join(w, f); t = open(p).read()
    assert t.count(old) == 1
    open(p, "w").write(t.replace(old, new))
os.environ["VERIF_REPO"] = w
W = int(sys.argv[4]) if len(sys.argv) > 4 else 300
sys.path.insert(0, "/verif/lib"); sys.setrecursionlimit(20000)
import cxx, refcheck, genspec, spec, equiv
prog = cxx.load(); ref = refcheck.reference()
for k, fn in prog.fns.items():
    if fn.body is None: continue
    name = spec.fkey(fn, prog)
    if name not in ref["functions"] or not re.search(sys.argv[3], name): continue
    if os.fork():
        os.wait()
        continue
    j = spec.encode(genspec.summarise(prog, fn, genspec.setup(ref))); R = ref["functions"][name]["s"]
    if R == j: os._exit(0)
    print("FN", name)
    x, y = spec.decode(R), spec.decode(j)
    ip = spec.int_pred(prog, fn)
    for l in sorted(set(x["locs"]) | set(y["locs"])):
        p, q = x["locs"].get(l, []), y["locs"].get(l, [])
        P, Q = [spec.render(u) for u in p], [spec.render(u) for u in q]
        if P != Q:
            print(" ", l, "same:", equiv.same_updates(p, q, ip), "unres", sum(map(spec.unresolved, p)), sum(map(spec.unresolved, q)), "odd", len(equiv.odd_conditions(p, q)[0]), equiv.odd_conditions(p, q)[1])
            s, t = str(P), str(Q)
            i = 0
            while i < min(len(s), len(t)) and s[i] == t[i]: i += 1
            i = max(0, i - 60)
            print("    -", s[i:i + W]); print("    +", t[i:i + W])
    P, Q = sorted(map(spec.render_ev, x["events"])), sorted(map(spec.render_ev, y["events"]))
    for e in P:
        if e in Q: Q.remove(e)
        else: print("  ev -", e[:W])
    for e in Q: print("  ev +", e[:W])
    sys.stdout.flush()
    os._exit(0)
