"""Mutation sweep (dev aid): random small source mutations in functions with a reference; which ones does the comparison notice?
mutate.py N SEED [fileregex] -> prints one line per undetected mutant."""
import sys, os, re, random, subprocess, shutil, json, multiprocessing, collections
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(HERE, "..", "lib"))
N, SEED = int(sys.argv[1]), int(sys.argv[2])
FR = sys.argv[3] if len(sys.argv) > 3 else ""
OPS = [
 (r" \+ ", " - "), (r" - ", " + "), (r" \* ", " / "), (r" < ", " <= "), (r" <= ", " < "), (r" > ", " >= "), (r" >= ", " > "), (r" == ", " != "), (r" != ", " == "),
 (r" && ", " || "), (r" \|\| ", " && "), (r" \+= ", " = "), (r" \+= ", " -= "), (r" -= ", " += "), (r"(?<![\w.])0(?![\w.])", "1"), (r"(?<![\w.])1(?![\w.])", "2"), (r"(?<![\w.])1(?![\w.])", "0"),
 (r"(?<![\w.])2(?![\w.])", "3"), (r"0\.5", "0.25"), (r"\btrue\b", "false"), (r"\bfalse\b", "true"), (r"\bcos", "sin"), (r"\bsin", "cos"), (r"_e\b", "_o"), (r"_o\b", "_e"), (r"nsMinF1\b", "nsMinF"),
 (r"nsMaxF1\b", "nsMaxF"), (r"nsMinF\b", "nsMinF1"), (r"nsMaxH\b", "nsMaxF"), (r"nThetaEff", "nThetaReduced"), (r"\bmpol\b", "ntor"), (r"lthreed", "lasym"), (r"lasym", "lthreed"), (r"\b[rz]mncc", "rmnss"), (r"cc\b", "ss"), (r"\br(?=[A-Z_1])", "z"), (r"!(?=[\w(])", ""),
 (r"^(\s+)[\w.\->\[\]()+* ,:]+ (\+|-|\*)?= [^;{}]*;$", r"\1;"), (r"^(\s+)[\w.:\->]+\([^;{}]*\);$", r"\1;"), (r"\(([\w.]+), ([\w.]+)\)", r"(\2, \1)"),
]
def sites():
    import refcheck, cxx, spec
    ref = refcheck.reference(); prog = cxx.load()
    out = []
    for f in prog.fns.values():
        if f.body is None: continue
        k = spec.fkey(f, prog)
        if k not in ref["functions"] or not re.search(FR, f.file): continue
        out.append((f.file, f.line, f.endl))
    return sorted(set(out))
def gen(fns, rnd):
    lines = {}
    while True:
        f, a, b = rnd.choices(fns, weights=[max(1, e - s) for _, s, e in fns])[0]
        if f not in lines: lines[f] = open("/repo/src/vmecpp/cpp/" + f).read().split("\n")
        ln = rnd.randint(a, b)
        if ln > len(lines[f]): continue
        t = lines[f][ln - 1]
        if t.strip().startswith(("//", "#", "LOG", "std::cout", "CHECK", "<<")) or "absl::" in t or '"' in t and "json" not in t: continue
        code = t.split("//")[0]
        c = []
        for pat, rep in OPS:
            for m in re.finditer(pat, code):
                new = code[:m.start()] + m.expand(rep) + code[m.end():] if "\\" in rep else code[:m.start()] + rep + code[m.end():]
                if new != code: c.append(new)
        if c: return f, ln, t, rnd.choice(c)
def init(q):
    global W
    i = q.get()
    W = "/tmp/mut/%d" % i
    if not os.path.isdir(W + "/repo"):
        os.makedirs(W + "/repo/src/vmecpp", exist_ok=True)
        subprocess.check_call(["rsync", "-a", "--include=*/", "--include=*.cc", "--include=*.h", "--include=*.hpp", "--include=*.hh", "--include=*.py", "--exclude=*", "/repo/src/vmecpp/", W + "/repo/src/vmecpp/"]) if shutil.which("rsync") else subprocess.check_call("cd /repo/src/vmecpp && find . \\( -name '*.cc' -o -name '*.h' -o -name '*.hpp' -o -name '*.hh' -o -name '*.py' \\) | cpio -pdm --quiet %s/repo/src/vmecpp" % W, shell=True)
    if not os.path.isdir(W + "/cache"):
        subprocess.check_call(["cp", "-a", "/verif/.cache", W + "/cache"])
CHILD = r'''
import sys, json
sys.path.insert(0, "/verif/lib")
import cxx, refcheck, genspec, spec
f = sys.argv[1]
try:
    prog = cxx.load()
except cxx.AnalysisBroken as e:
    print("RESULT " + json.dumps(["noparse", str(e)[-200:]])); sys.exit()
ref = refcheck.reference()
orig = genspec.collect_all
def serial(prog, keys, opaque, limit=40, procs=8):
    genspec.PROG, genspec.OPAQUE, genspec.LIMIT = prog, opaque, limit
    for k in keys: yield genspec.work(k)
genspec.collect_all = serial
sel = [k for k, v in ref["functions"].items() if v["file"] == f or f.endswith(".h") and v["file"].startswith(f[:-2])]
r = refcheck.run(prog, sel)
print("RESULT " + json.dumps(["ok", len(r.diffs), [(fn.qn, d.loc) for fn, d in r.diffs[:3]], r.undecided[:4], r.vanished, r.failed]))
'''
def work(m):
    f, ln, old, new = m
    p = W + "/repo/src/vmecpp/cpp/" + f
    t = open(p).read().split("\n"); t[ln - 1] = new
    orig = open(p).read()
    open(p, "w").write("\n".join(t))
    try:
        r = subprocess.run([sys.executable, "-c", CHILD, f], capture_output=True, text=True, timeout=300, env=dict(os.environ, VERIF_REPO=W + "/repo", VERIF_CACHE=W + "/cache"))
        l = [x for x in r.stdout.split("\n") if x.startswith("RESULT ")]
        res = json.loads(l[0][7:]) if l else ["crash", r.stderr[-300:]]
    except subprocess.TimeoutExpired:
        res = ["timeout"]
    open(p, "w").write(orig)
    return m, res
if __name__ == "__main__":
    fns = sites()
    rnd = random.Random(SEED)
    ms = [gen(fns, rnd) for _ in range(N)]
    q = multiprocessing.Queue()
    for i in range(8): q.put(i)
    cnt = collections.Counter()
    with multiprocessing.Pool(8, init, (q,)) as pool:
        for m, res in pool.imap_unordered(work, ms):
            if res[0] == "noparse": cnt["noparse"] += 1; continue
            if res[0] != "ok": cnt[res[0]] += 1; print("??", m, res); continue
            if res[1]: cnt["detected"] += 1; continue
            k = "undecided" if res[3] else "failed" if res[5] or res[4] else "MISSED"
            cnt[k] += 1
            print("%-9s %s:%d\n      - %s\n      + %s   %s" % (k, m[0], m[1], m[2].strip(), m[3].strip(), res[3] + res[5]))
            sys.stdout.flush()
    print(dict(cnt))
