#!/usr/bin/env python3
"""Mutation sweep of the Python analysis: pymutate.py N SEED [fileregex] ; prints the mutants that are not detected."""
import time, ast, copy, os, random, re, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
import pyabs, pyref
ROOT = os.environ.get("VERIF_REPO", "/repo") + "/src/vmecpp"


def sites(tree):
    out = []
    strs = [n.value for n in ast.walk(tree) if isinstance(n, ast.Constant) and isinstance(n.value, str) and n.value.isidentifier()]
    attrs = [n.attr for n in ast.walk(tree) if isinstance(n, ast.Attribute)]
    for fn in ast.walk(tree):
        if not isinstance(fn, ast.FunctionDef):
            continue
        doc = ast.get_docstring(fn)
        annots = set()
        funcs = {id(n.func) for n in ast.walk(fn) if isinstance(n, ast.Call)}
        for n in ast.walk(fn):
            for f in ("annotation", "returns"):
                a = getattr(n, f, None)
                if a is not None:
                    annots |= {id(x) for x in ast.walk(a)}
            if isinstance(n, (ast.Raise,)):
                annots |= {id(x) for x in ast.walk(n)}
            if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and isinstance(n.func.value, ast.Name) and n.func.value.id in ("logger", "logging", "warnings"):
                annots |= {id(x) for x in ast.walk(n)}
            if isinstance(n, ast.Expr) and isinstance(n.value, ast.Constant):
                annots |= {id(x) for x in ast.walk(n)}
        for d in fn.decorator_list:
            annots |= {id(x) for x in ast.walk(d)}
        for n in ast.walk(fn):
            if id(n) in annots:
                continue
            for b in ("body", "orelse", "finalbody"):
                ss = getattr(n, b, None)
                if isinstance(ss, list):
                    for i, s in enumerate(ss):
                        if isinstance(s, (ast.Expr, ast.Assign, ast.AugAssign, ast.Raise, ast.Break, ast.Continue)) and id(s) not in annots and not (isinstance(s, ast.Expr) and id(s.value) in annots):
                            out.append(("del", n, b, i, s.lineno))
                        if isinstance(s, ast.If):
                            out.append(("unif", n, b, i, s.lineno))
            if isinstance(n, ast.Compare):
                out.append(("cmp", n, None, 0, n.lineno))
            elif isinstance(n, ast.BinOp) and isinstance(n.op, (ast.Add, ast.Sub, ast.Mult, ast.Div)):
                out.append(("bin", n, None, 0, n.lineno))
            elif isinstance(n, ast.BoolOp):
                out.append(("bool", n, None, 0, n.lineno))
            elif isinstance(n, ast.Constant) and isinstance(n.value, (int, float)) and n.value is not None:
                out.append(("const", n, None, 0, n.lineno))
            elif isinstance(n, ast.Constant) and isinstance(n.value, str) and n.value.isidentifier():
                out.append(("str", n, strs, 0, n.lineno))
            elif isinstance(n, ast.Attribute) and isinstance(n.ctx, ast.Load) and isinstance(n.value, ast.Name) and id(n) not in funcs and n.value.id not in ("np", "os", "sys", "pydantic", "subprocess", "pathlib", "netCDF4"):
                out.append(("attr", n, attrs, 0, n.lineno))
            elif isinstance(n, ast.Call):
                if n.keywords:
                    out.append(("dropkw", n, None, 0, n.lineno))
                if len(n.args) > 1:
                    out.append(("swapargs", n, None, 0, n.lineno))
                if isinstance(n.func, ast.Attribute) and n.func.attr in ("copy", "astype", "strip", "model_copy") :
                    out.append(("dropcall", n, None, 0, n.lineno))
            elif isinstance(n, ast.Slice):
                out.append(("slice", n, None, 0, n.lineno))
    return out


def mutate(site, rnd):
    k, n, x, i, line = site
    if k == "del":
        getattr(n, x)[i] = ast.copy_location(ast.Pass(), getattr(n, x)[i])
    elif k == "unif":
        s = getattr(n, x)[i]
        if rnd.random() < .5:
            s.test = ast.UnaryOp(ast.Not(), s.test)
        else:
            getattr(n, x)[i:i + 1] = s.body
    elif k == "cmp":
        m = {ast.Lt: ast.LtE, ast.LtE: ast.Lt, ast.Gt: ast.GtE, ast.GtE: ast.Gt, ast.Eq: ast.NotEq, ast.NotEq: ast.Eq, ast.Is: ast.IsNot, ast.IsNot: ast.Is, ast.In: ast.NotIn, ast.NotIn: ast.In}
        n.ops[0] = m[type(n.ops[0])]()
    elif k == "bin":
        n.op = {ast.Add: ast.Sub, ast.Sub: ast.Add, ast.Mult: ast.Div, ast.Div: ast.Mult}[type(n.op)]()
    elif k == "bool":
        if len(n.values) > 2 or rnd.random() < .5:
            n.values.pop(rnd.randrange(len(n.values)))
            if len(n.values) == 1:
                n.values.append(n.values[0])
        else:
            n.op = ast.Or() if isinstance(n.op, ast.And) else ast.And()
    elif k == "const":
        n.value = (not n.value) if isinstance(n.value, bool) else n.value + 1
    elif k in ("str", "attr"):
        cur = n.value if k == "str" else n.attr
        c = [a for a in set(x) if a != cur and abs(len(a) - len(cur)) < 3 and a[:2] == cur[:2]] or [a for a in set(x) if a != cur]
        v = rnd.choice(sorted(c))
        if k == "str":
            n.value = v
        else:
            n.attr = v
    elif k == "dropkw":
        n.keywords.pop(rnd.randrange(len(n.keywords)))
    elif k == "swapargs":
        n.args[0], n.args[1] = n.args[1], n.args[0]
    elif k == "dropcall":
        v = n.func.value
        n.__class__ = v.__class__
        n.__dict__ = v.__dict__
    elif k == "slice":
        if n.upper is not None:
            n.upper = ast.BinOp(n.upper, ast.Add(), ast.Constant(1))
        elif n.lower is not None:
            n.lower = ast.BinOp(n.lower, ast.Add(), ast.Constant(1))
        else:
            n.lower = ast.Constant(1)


def call(a):
    return ONE(*a)


def main():
    N, seed = int(sys.argv[1]), int(sys.argv[2])
    pat = sys.argv[3] if len(sys.argv) > 3 else ""
    rnd = random.Random(seed)
    files = [f for f in sorted(os.listdir(ROOT)) if f.endswith(".py") and re.search(pat, f)]
    src = {f: open(os.path.join(ROOT, f)).read() for f in files}
    alls = []
    for f in files:
        alls += [(f, i) for i in range(len(sites(ast.parse(src[f]))))]
    rnd.shuffle(alls)
    ref = pyref.reference()
    def one(f, i):
        rnd = random.Random(hash((f, i)) if 0 else i)
        t0 = time.time()
        tree = ast.parse(src[f])
        site = sites(tree)[i]
        before = ast.unparse(tree)
        try:
            mutate(site, rnd)
        except Exception as e:
            return
        ast.fix_missing_locations(tree)
        try:
            after = ast.unparse(tree)
            new = ast.parse(after)
        except Exception:
            return
        if after == before:
            return
        pkg = pyabs.Package.__new__(pyabs.Package)
        orig = pyabs.ast.parse

        def fake(s, *a, **k):
            if a and a[0] == f:
                return new
            return orig(s, *a, **k)
        pyabs.ast.parse = fake
        try:
            pkg.__init__(ROOT)
        finally:
            pyabs.ast.parse = orig
        try:
            r = pyref.run(pkg, list(ref["functions"]), list(ref["classes"]))
            res = "detected" if r.diffs else "undecided" if r.undecided else "vanished" if r.vanished else "failed" if r.failed else "MISSED"
        except Exception as e:
            if os.environ.get("DEBUG"):
                import traceback
                traceback.print_exc()
                return
            res = "CRASH " + type(e).__name__ + str(e)[:80]
        out = []
        if time.time() - t0 > 20:
            out.append("SLOW %.0f %s %d" % (time.time() - t0, f, site[4]))
        if res != "detected":
            b, a = before.split("\n"), after.split("\n")
            import difflib
            d = [x for x in difflib.unified_diff(b, a, lineterm="", n=0) if not x.startswith(("---", "+++", "@@"))]
            out.append(" ".join(map(str, (res, f, site[4], site[0], (r.undecided[:1] if res == "undecided" else "")))))
            for x in d[:6]:
                out.append("       " + x[:160])
        return res, out

    import multiprocessing
    st = {}
    global ONE
    ONE = one
    with multiprocessing.get_context("fork").Pool(8) as p:
        for x in p.imap(call, alls[:N]):
            if x is None:
                continue
            st[x[0]] = st.get(x[0], 0) + 1
            for l in x[1]:
                print(l)
            sys.stdout.flush()
    print(st)


main()
