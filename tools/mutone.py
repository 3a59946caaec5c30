"""mutone.py LOG FILE:LINE : re-run one mutant of a mutate.py log and show how the summaries changed."""
import sys, os, re, subprocess, multiprocessing
sys.argv, argv = ["x", "1", "1"], sys.argv
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
L = open(argv[1]).read().split("\n")
CH = r'''
import sys, json
sys.path.insert(0, "/verif/lib")
sys.setrecursionlimit(20000)
import cxx, refcheck, genspec, spec
f, ln = sys.argv[1], int(sys.argv[2])
prog = cxx.load()
ref = refcheck.reference()
for k, fn in prog.fns.items():
    if fn.body is None or fn.file != f or not (fn.line <= ln <= fn.endl): continue
    name = spec.fkey(fn, prog)
    print("fn", name, name in ref["functions"])
    if name not in ref["functions"]: continue
    j = spec.encode(genspec.summarise(prog, fn, genspec.setup(ref)))
    R = ref["functions"][name]["s"]
    print(" identical" if R == j else " changed")
    import collections
    if R != j:
        ra = collections.Counter(json.dumps(x) for x in R["t"] if x[0] in "cS"); rb = collections.Counter(json.dumps(x) for x in j["t"] if x[0] in "cS")
        print("  leaves", ra - rb, rb - ra, "st", sorted(set(R["st"]) ^ set(j["st"])), len(R["t"]), len(j["t"]))
    a, b = spec.decode(R), spec.decode(j)
    for l in sorted(set(a["locs"]) | set(b["locs"])):
        x, y = [spec.render(u) for u in a["locs"].get(l, [])], [spec.render(u) for u in b["locs"].get(l, [])]
        if x != y: print("  ", l, "\n     -", str(x)[:700], "\n     +", str(y)[:700])
    print(spec.compare(prog, fn, a, b, set(ref["members"])))
'''
for spec_ in argv[2:]:
    for i, l in enumerate(L):
        if l.endswith(" " + spec_) or l.endswith("/" + spec_):
            f, ln = l.split()[1].rsplit(":", 1)
            new = L[i + 2].strip()[2:]
            new = re.sub(r"   \[.*$", "", new)
            print("##", f, ln, new)
            import mutate
            q = multiprocessing.Queue(); q.put(0); mutate.init(q)
            p = mutate.W + "/repo/src/vmecpp/cpp/" + f
            o = open(p).read(); t = o.split("\n"); t[int(ln) - 1] = new
            open(p, "w").write("\n".join(t))
            try:
                subprocess.run([sys.executable, "-c", CH, f, ln], env=dict(os.environ, VERIF_REPO=mutate.W + "/repo", VERIF_CACHE=mutate.W + "/cache"))
            finally:
                open(p, "w").write(o)
