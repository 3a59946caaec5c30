"""cur.py PATTERN [width]: print current effect summaries of matching functions."""
import sys, os
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
import cxx, spec, refcheck, genspec
sys.setrecursionlimit(20000)
ref = refcheck.reference()
prog = cxx.load()
w = int(sys.argv[2]) if len(sys.argv) > 2 else 300
for k, f in prog.fns.items():
    if f.body is not None and sys.argv[1] in spec.fkey(f, prog):
        s = spec.decode(spec.encode(genspec.summarise(prog, f, genspec.setup(ref))))
        print("==", spec.fkey(f, prog), f.file, "unresolved", sum(spec.unresolved(u) for v in s["locs"].values() for u in v))
        for l, us in sorted(s["locs"].items()):
            for u in us: print("  ", l, "::", spec.render(u)[:w])
        for e in s["events"]: print("   EV", spec.render_ev(e)[:w])
