"""Reference effect summaries of the Python package, and comparison of the current tree with them.

For every function two summaries are kept: "s" (every function of the package is
atomic) and "d" (private helpers are inlined; public functions are atomic).  A
public function's behaviour is judged on "d": how it is split into helpers does
not matter.  "s" is used to say which function the difference is in.
"""
import ast
import gzip
import json
import os
import sys
import time

import pyabs
import pyterm
from pyterm import Budget, Ev, K, T, Term, is_k, kval

sys.setrecursionlimit(200000)
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SPEC = os.path.join(HERE, "spec", "python.json.gz")
NSEED = 48
QUANT = ("seg", "dseg", "each", "sum", "any", "last", "first", "post", "eachraise", "sys", "fn")


def load(root=None):
    return pyabs.Package(os.path.join(root or os.environ.get("VERIF_REPO", "/repo"), "src/vmecpp"))


# ---------------------------------------------------------------- summaries
class Summaries:
    """Summaries of every function of a package given the reference's function names."""

    def __init__(self, pkg, opaque):
        self.pkg, self.opaque = pkg, opaque
        self.memo = {}
        self.busy = set()

    def effects(self, q):
        """Channels a call of q touches."""
        if q in self.busy or q not in self.pkg.fns:
            return ()
        r = self.get(q, False)
        return tuple(sorted(r["ev"])) if r is not None else ()

    def get(self, q, deep):
        k = (q, deep)
        if k not in self.memo:
            self.busy.add(q)
            try:
                it = pyabs.Interp(self.pkg, self.opaque, deep, self.effects)
                self.memo[k] = it.run(self.pkg.fns[q])
            except (pyabs.Unsupported, RecursionError) as e:
                self.memo[k] = None
            finally:
                self.busy.discard(q)
        return self.memo[k]


def annotation(pkg, mod, e, depth=0):
    """Annotation text with module-level aliases expanded and names qualified."""
    if isinstance(e, ast.Constant) and isinstance(e.value, str):
        try:
            e = ast.parse(e.value, mode="eval").body
        except SyntaxError:
            return repr(e.value)

    class R(ast.NodeTransformer):
        def visit_Name(self, n):
            if depth < 6 and n.id in mod.consts:
                return ast.Name("(" + annotation(pkg, mod, mod.consts[n.id], depth + 1) + ")", ast.Load())
            q = mod.names.get(n.id)
            if q is None:
                return n
            q = pkg.resolve(q)
            i = q.rfind(".")
            m = pkg.mods.get(q[:i])
            if m is not None and q[i + 1:] in m.consts and depth < 6:
                return ast.Name("(" + annotation(pkg, m, m.consts[q[i + 1:]], depth + 1) + ")", ast.Load())
            return ast.Name(q, ast.Load())

        def visit_Subscript(self, n):
            if isinstance(n.value, (ast.Name, ast.Attribute)) and ast.unparse(n.value).split(".")[-1] == "Literal":
                xs = n.slice.elts if isinstance(n.slice, ast.Tuple) else [n.slice]
                return ast.Name("Literal[%s]" % ", ".join(sorted(map(ast.unparse, xs))), ast.Load())
            self.generic_visit(n)
            return n
    import copy
    e = R().visit(copy.deepcopy(e))
    return ast.unparse(e).replace('"', "'")


def strip_doc(s):
    return s


def class_table(pkg, q):
    """Fields of a class: name -> [annotation, default term]; plus enum values and bases."""
    node, mod = pkg.classes[q]
    it = pyabs.Interp(pkg, set(pkg.fns), False)
    it.fr = pyabs.Frame(None, mod)
    fields, order = {}, []
    for s in node.body:
        if isinstance(s, ast.AnnAssign) and isinstance(s.target, ast.Name):
            d = it.modexpr(s.value, mod) if s.value is not None else T("none")
            fields[s.target.id] = [annotation(pkg, mod, s.annotation), d]
            order.append(s.target.id)
        elif isinstance(s, ast.Assign):
            for t in s.targets:
                if isinstance(t, ast.Name):
                    fields[t.id] = ["", it.modexpr(s.value, mod)]
                    order.append(t.id)
    bases = [annotation(pkg, mod, b) for b in node.bases]
    return {"fields": fields, "order": order, "bases": bases, "decs": [ast.unparse(d) for d in node.decorator_list]}


def reach(pkg):
    """Call graph by name references: caller -> callees in the package."""
    g = {}
    for q, f in pkg.fns.items():
        out = set()
        for n in ast.walk(f.node):
            if isinstance(n, ast.Name):
                r = pkg.resolve(f.mod.names.get(n.id, "?" + n.id))
                if r in pkg.fns:
                    out.add(r)
            elif isinstance(n, ast.Attribute):
                for m in pkg.methods.get(n.attr, ()):
                    out.add(m.qual)
                try:
                    t = ast.unparse(n)
                except Exception:
                    continue
                h = t.split(".")[0]
                if h in f.mod.names:
                    r = pkg.resolve(".".join([f.mod.names[h]] + t.split(".")[1:]))
                    if r in pkg.fns:
                        out.add(r)
        out.discard(q)
        g[q] = out
    return g


def entry_points(pkg, g):
    """Functions judged by their own: public ones, and private ones no other function uses."""
    rec = set()
    for q in g:
        seen, todo = set(), list(g[q])
        while todo:
            x = todo.pop()
            if x not in seen and x in g:
                seen.add(x)
                todo += g[x]
        if q in seen or q in pkg.fns and any(isinstance(n, ast.Name) and n.id == pkg.fns[q].name and pkg.fns[q].cls is None for n in ast.walk(pkg.fns[q].node)):
            rec.add(q)
    used = set().union(*g.values()) if g else set()
    return {q for q, f in pkg.fns.items() if f.public or q not in used or q in rec or f.ctx or any(isinstance(n, (ast.Yield, ast.YieldFrom)) for n in ast.walk(f.node))}


# calls that change a value and are never a mere restatement of code that does without them
CHANGING = {"g:" + x for x in ("builtins.abs", "builtins.round", "numpy.round", "numpy.clip", "numpy.rint", "numpy.floor", "numpy.ceil", "numpy.trunc", "numpy.fix", "math.floor",
            "math.ceil", "math.trunc", "numpy.finfo", "numpy.isclose", "numpy.allclose", "math.isclose", "numpy.nan_to_num", "numpy.float32", "numpy.float16", "numpy.single",
            "numpy.sign", "numpy.flip", "numpy.fliplr", "numpy.flipud", "numpy.roll", "numpy.sort", "numpy.unique", "builtins.reversed", "builtins.sorted", "numpy.max", "numpy.min", "numpy.median",
            "numpy.mean", "numpy.average", "numpy.sqrt", "math.sqrt", "numpy.exp", "math.exp", "numpy.finfo.eps", "sys.float_info.epsilon", "numpy.maximum", "numpy.minimum", "numpy.abs", "numpy.gradient", "numpy.trapz", "numpy.cumsum")} | \
           {"m:" + x for x in ("round", "clip", "mean", "min", "max", "flip", "lower", "upper", "title", "capitalize", "lstrip", "rstrip", "strip", "sort", "reverse", "eps", "tiny")}


def vocabulary(terms):
    out = set()
    seen = set()
    for t in terms:
        for x in pyterm.walk(t, seen):
            if x.op == "g":
                out.add("g:" + x.args[0])
            elif x.op == "meth":
                out.add("m:" + x.args[1])
            elif x.op == "mcall":
                out.add("m:" + str(x.args[1]))
            elif x.op == "op":
                out.add("o:" + x.args[0])
            elif x.op == "kw":
                out.add("kw:" + x.args[0])
            elif x.op == "raised":
                out.add("h:" + x.args[0])
    return out


def all_terms(r):
    out = list(r["sig"]) + [r["ret"]] + list(r["raises"])
    for us in r["ev"].values():
        out += us
    return out


def generate(pkg):
    opaque = set(pkg.fns)
    S = Summaries(pkg, opaque)
    g = reach(pkg)
    entry = entry_points(pkg, g)
    fns, vocab = {}, set()
    for q in sorted(pkg.fns):
        s = S.get(q, False)
        d = S.get(q, True)
        if s is None or d is None:
            print("no summary:", q)
            continue
        f = pkg.fns[q]
        fns[q] = {"s": s, "d": d, "entry": q in entry, "file": f.mod.path, "calls": sorted(g[q]), "public": f.public}
        vocab |= vocabulary(all_terms(s)) | vocabulary(all_terms(d))
    classes = {q: class_table(pkg, q) for q in sorted(pkg.classes)}
    for c in classes.values():
        vocab |= vocabulary([d for _, d in c["fields"].values()])
    return {"functions": fns, "classes": classes, "vocab": sorted(vocab), "opaque": sorted(opaque)}


_REF = None


def reference():
    global _REF
    if _REF is None:
        with gzip.open(SPEC) as f:
            j = json.loads(f.read())
        _REF = pyterm.decode(j["nodes"], j["root"])
    return _REF


def write():
    r = generate(load())
    nodes, root = pyterm.encode(r)
    data = json.dumps({"nodes": nodes, "root": root}, separators=(",", ":")).encode()
    with open(SPEC, "wb") as f:
        f.write(gzip.compress(data, 9, mtime=0))
    print("functions", len(r["functions"]), "classes", len(r["classes"]), "bytes", os.path.getsize(SPEC))
    bad = {q: f["d"]["bad"] for q, f in r["functions"].items() if f["d"]["bad"]}
    print("unsupported:", bad)


# ---------------------------------------------------------------- comparison
def rtype(r):
    while r.op != "raise":
        r = r.args[3] if r.op == "eachraise" else r.args[0]
    return r.args[1]


def channel(ev, us):
    ops = []
    for u in us:
        ops += ev.ops(u)
    return ev.epochs(ops)


def quants(ts):
    n = {}
    seen = set()
    for t in ts:
        for x in pyterm.walk(t, seen):
            if x.op in QUANT:
                n[x.op] = n.get(x.op, 0) + 1
    return n


def size(ts):
    seen = set()
    return sum(1 for t in ts for _ in pyterm.walk(t, seen))


class Diff:
    def __init__(self, loc, kind, ref, cur):
        self.loc, self.kind, self.ref, self.cur = loc, kind, ref, cur


def show(ts, n=3):
    return [str(t)[:900] for t in ts[:n]]


def localise(ref, cur, limit=40):
    """Innermost differing sub-terms, for the report."""
    out = []
    n = 0

    def go(a, b, d):
        nonlocal n
        n += 1
        if a is b or len(out) >= 4 or n > 4000:
            return
        if a.op != b.op or len(a.args) != len(b.args) or d > 200:
            out.append((str(a)[:300], str(b)[:300]))
            return
        k = len(out)
        for x, y in zip(a.args, b.args):
            if isinstance(x, Term) and isinstance(y, Term):
                go(x, y, d + 1)
            elif x != y:
                out.append((str(a)[:300], str(b)[:300]))
        return
    for a, b in zip(ref, cur):
        go(a, b, 0)
    return out


NORAISE = "no raise"


LOOPS = {"seg": 4, "each": 2, "sum": 4, "any": 4, "last": 4, "first": 4, "eachraise": 2, "dseg": 5}


def loop_of(t):
    s = t.args[LOOPS[t.op]]
    return (t.args[0], t.args[1], s)


def bare(u):
    """An effect without its loops: (effect, loops)."""
    loops = ()
    while u.op in ("ctx", "each", "eachraise"):
        if u.op == "ctx":
            u = u.args[0]
        else:
            loops += (loop_of(u),)
            u = u.args[3]
    return u, loops


def guard_goals(u, path, loops):
    """Situations in which an effect happens, and in which each of its conditions alone fails."""
    u, l2 = bare(u)
    if not u.args or not isinstance(u.args[0], Term) or u.op == "carried":
        return []
    g, loops = u.args[0], loops + l2
    out = [path + ((g, True, loops),)]
    if g.op == "and":
        for x in g.args[-6:]:
            out.append(path + tuple((y, y is not x, loops) for y in g.args))
    # branches of what it stores
    for t in u.args[1:]:
        if isinstance(t, Term):
            ps = []
            leaves(t, path + ((g, True, loops),), ps, loops)
            if len(ps) > 1:
                out += ps[:12]
    return out


def leaves(t, path, out, loops=()):
    """Conditions leading to each branch of a value."""
    if t.op == "ite" and len(out) < 60:
        leaves(t.args[1], path + ((t.args[0], True, loops),), out, loops)
        leaves(t.args[2], path + ((t.args[0], False, loops),), out, loops)
    else:
        out.append(path)


COND = ("truth", "cmp", "any", "anyr", "not", "and", "or")


def diff_goals(a, b, limit=40):
    """Situations leading to the places where two terms differ, and the differing conditions against each other."""
    goals = []
    seen = set()

    def unlike(x, y, path, loops):
        if x.op in COND or y.op in COND:
            goals.append(path + ((x, True, loops), (y, False, loops)))
            goals.append(path + ((x, False, loops), (y, True, loops)))
            for c in (x, y):
                if c.op in ("and", "or"):
                    for z in c.args[-6:]:
                        goals.append(path + tuple((t, (t is not z) == (c.op == "and"), loops) for t in c.args))
        else:
            goals.append(path)

    def go(x, y, path, loops, d):
        if x is y or len(goals) >= limit or d > 400:
            return
        if (x.id, y.id) in seen:
            return
        seen.add((x.id, y.id))
        if x.op == y.op == "upd":
            (bx, ux), (by, uy) = Ev.chain(None, x), Ev.chain(None, y)
            go(bx, by, path, loops, d + 1)
            if len(ux) == len(uy):
                for p, q in zip(ux, uy):
                    go(p, q, path, loops, d + 1)
            else:
                for u in [t for t in ux if t not in uy] + [t for t in uy if t not in ux]:
                    goals.extend(guard_goals(u, path, loops))
            return
        if x.op != y.op or len(x.args) != len(y.args):
            if x.op in ("sattr", "sitem", "spath", "mcall", "each", "ctx") and y.op in ("sattr", "sitem", "spath", "mcall", "each", "ctx"):
                goals.extend(guard_goals(x, path, loops) + guard_goals(y, path, loops))
            else:
                unlike(x, y, path, loops)
            return
        if x.op == "cmp":
            unlike(x, y, path, loops)
        for i, (p, q) in enumerate(zip(x.args, y.args)):
            if isinstance(p, Term) and isinstance(q, Term):
                if p is q:
                    continue
                extra, lp = (), loops
                if x.op == "ite" and i > 0:
                    extra = ((x.args[0], i == 1, loops),)
                elif x.op in ("sattr", "sitem", "spath", "mcall", "raise") and i > 0:
                    extra = ((x.args[0], True, loops),)
                elif x.op in LOOPS and i > 1 and i != LOOPS[x.op]:
                    lp = loops + (loop_of(x),)
                elif x.op == "sys":
                    if i == 0 or (i - 2) % 3 == 2:
                        lp = loops + ((x.args[0], x.args[1], x),)
                elif x.op == "and":
                    extra = tuple((t, True, loops) for t in x.args if t is not p)
                elif x.op == "or":
                    extra = tuple((t, False, loops) for t in x.args if t is not p)
                go(p, q, path + extra, lp, d + 1)
            elif p != q:
                goals.append(path)
    go(a, b, (), (), 0)
    return goals


def targets(ref, cur, pend):
    """Situations worth looking at: every outcome of the function near a difference."""
    near, far = [(NORAISE,)], []
    for loc, a, b in pend:
        pairs = list(zip(a, b)) if len(a) == len(b) else []
        for x, y in pairs:
            for g in diff_goals(x, y):
                near += [g] if loc == "raises" else [(NORAISE,) + g, g]
        if not pairs:
            for u in [x for x in a if x not in b] + [x for x in b if x not in a]:
                for g in guard_goals(u, (), ()):
                    near += [g] if loc == "raises" else [g, (NORAISE,) + g]
        if loc == "return value":
            for t in (a[0], b[0]):
                ps = []
                leaves(t, (), ps)
                far += [p + (NORAISE,) for p in ps]
    near = list(dict.fromkeys(near))
    far = [g for g in dict.fromkeys(far) if g not in near]
    return near[:100] + far[:30]


def steer(seed, ref, cur, goal, rounds=60):
    """An interpretation in which the goal holds (as far as a local search finds one)."""
    force = {}
    if not goal:
        return Ev(seed)
    clauses = [g for g in goal if g != NORAISE]
    if NORAISE in goal:
        for r in dict.fromkeys(ref["raises"] + cur["raises"]):
            clauses.append((r.args[0] if r.op == "raise" else T("anyr", r), False, ()))

    def unsat(ev, stop=1 << 30):
        out = []
        for i, g in enumerate(clauses):
            if ev.within(g[2], lambda: ev.cond(g[0])) != g[1]:
                out.append(i)
                if len(out) > stop:
                    break
        return out
    ev = Ev(seed)
    bad = unsat(ev)
    stuck = 0
    used = {}            # how often an atom was flipped
    best = (len(bad), force)
    for rnd in range(rounds):
        if not bad or stuck > 6:
            break
        pick = bad[0] if rnd % 4 else bad[ev.h("bad", rnd) % len(bad)]
        c, w, loops = clauses[pick]
        opts = ev.within(loops, lambda: ev.options(c, w))[:10]
        if not opts:
            stuck += 1
            if len(bad) == 1:
                break
            c, w, loops = clauses[bad[ev.h("bad2", rnd) % len(bad)]]
            opts = ev.within(loops, lambda: ev.options(c, w))[:10]
            if not opts:
                continue
        tried = []
        for k, o in enumerate(opts):
            f2 = dict(force)
            f2.update(o)
            e2 = Ev(seed, force=f2)
            b2 = unsat(e2)
            tried.append((len(b2), sum(used.get(x, 0) for x in o), k, b2, e2, f2))
            if not b2:
                break
        if len(tried) > 1 and ev.h("noise", rnd) % 8 == 0 and tried[-1][0]:
            t = tried[ev.h("which", rnd) % len(tried)]
        else:
            t = min(tried, key=lambda t: t[:3])
        for x in opts[t[2]]:
            used[x] = used.get(x, 0) + 1
        bad, ev, force = t[3:]
        if len(bad) < best[0]:
            best = (len(bad), force)
    return Ev(seed, force=best[1] if bad else force)


def compare(ref, cur, vocab, nseed=NSEED):
    """Differences between two summaries of one function."""
    diffs = []
    nt = ns = 0
    locs = [("raises", ref["raises"], cur["raises"]), ("return value", [ref["ret"]], [cur["ret"]])]
    # parameters: a new trailing one with a default is allowed
    rs, cs = ref["sig"], cur["sig"]
    cs2 = cs
    if len(cs) > len(rs) and all(p.args[1].op != "none" for p in cs[len(rs):]):
        cs2 = cs[:len(rs)]
    locs.append(("parameters", list(rs), list(cs2)))
    for ch in sorted(set(ref["ev"]) | set(cur["ev"])):
        locs.append(("effects on " + ch.replace("arg:", "parameter ").replace("global:", "module state "), list(ref["ev"].get(ch, ())), list(cur["ev"].get(ch, ()))))
    if ref["decs"] != cur["decs"]:
        diffs.append(Diff("decorators", "differs", ref["decs"], cur["decs"]))
    pend = []
    for l in locs:
        if len(l[1]) == len(l[2]) and all(a is b for a, b in zip(l[1], l[2])):
            nt += 1
        else:
            pend.append(l)
    if not pend:
        return nt, ns, diffs
    bad = {}
    undec = set()
    goals = targets(ref, cur, pend)
    t0 = time.time()
    plan = [((), 0)] * 24 + [(g, 8) for g in goals] + [(g, 60) for g in goals] * 2
    for s, (goal, rounds) in enumerate(plan):
        if time.time() - t0 > 90:
            break
        if all(l[0] in bad or l[0] in undec for l in pend):
            break
        try:
            ev = steer(s, ref, cur, goal, rounds)
            ra = [rtype(r) for r in ref["raises"] if ev.raised(r)]
            ca = [rtype(r) for r in cur["raises"] if ev.raised(r)]
        except Budget:
            undec.add("raises")
            break
        for loc, a, b in pend:
            if loc in bad or loc in undec:
                continue
            try:
                if loc == "raises":
                    x, y = sorted(set(ra)), sorted(set(ca))
                    # which of several failed checks is reported first is not part of the contract
                    if x and y and {rtype(r) for r in a} == {rtype(r) for r in b}:
                        continue
                elif loc in ("return value", "effects on local"):
                    if ra and ca:
                        continue
                    x, y = (ev.ev(a[0]), ev.ev(b[0])) if loc == "return value" else (channel(ev, a), channel(ev, b))
                elif loc == "parameters":
                    x, y = [(p.args[0], ev.ev(p.args[1])) for p in a], [(p.args[0], ev.ev(p.args[1])) for p in b]
                else:
                    x, y = channel(ev, a), channel(ev, b)
                if repr(x) != repr(y):
                    bad[loc] = (s, x, y)
            except Budget:
                undec.add(loc)
    for loc, a, b in pend:
        if loc in undec:
            diffs.append(Diff(loc, "undecided", ["evaluation budget"], []))
        elif loc in bad:
            kind = "differs"
            if a and not b:
                kind = "missing"
            lost = lost_cleanup(a, b) if loc.startswith("effects") else None
            if lost:
                diffs.append(Diff(loc, "differs", ["%s on every exit, also on errors" % lost], ["%s only without an error (or for some errors)" % lost]))
                continue
            why = None if kind == "missing" else incomparable(a, b, vocab, cur["bad"])
            if why:
                diffs.append(Diff(loc, "undecided", [why], []))
                continue
            d = localise(a, b)
            diffs.append(Diff(loc, kind, [x for x, _ in d] or show(a), [y for _, y in d] or show(b)))
        else:
            ns += 1
    return nt, ns, diffs


def cleanups(us):
    """Calls made on the way out: name -> 3 (on every exit), 2 (any ordinary error), 1 (some errors); and the managers entered."""
    out, mgr = {}, set()
    for u in us:
        tags = []
        while u.op in ("ctx", "each"):
            if u.op == "ctx":
                tags += u.args[1:]
                u = u.args[0]
            else:
                u = u.args[3]
        mgr |= {t for t in tags if t.op == "within"}
        if u.op != "mcall":
            continue
        r = 0
        for t in tags:
            if t.op == "finally":
                r = 3
            elif t.op == "handler":
                ks = {k.strip(" ()").split(".")[-1] for k in t.args[0].split(",")}
                r = max(r, 3 if ks & {"", "BaseException"} else 2 if "Exception" in ks else 1)
        n = u.args[1]
        out[n] = max(r, out.get(n, 0))
    return out, mgr


def lost_cleanup(a, b):
    """A call the reference makes when the protected code fails, which is no longer made then."""
    ra, ma = cleanups(a)
    rb, mb = cleanups(b)
    if mb - ma:
        return None
    for n, r in ra.items():
        if r >= 2 and rb.get(n, 0) < r:
            return n
    return None


def incomparable(a, b, vocab, bad):
    """Why a difference between a and b may be one of spelling the evaluation does not see through."""
    if bad:
        return "unsupported %s" % bad
    vb = vocabulary(b)
    new = vb - vocab - CHANGING
    if new:
        return "new vocabulary %s" % sorted(new)[:4]
    qa, qb = quants(a), quants(b)
    if qa == qb:
        return None
    if any(qb[k] > qa.get(k, 0) for k in qb):
        return "loop structure %s / %s" % (qa, qb)
    if qa.get("sys") != qb.get("sys") and sum(n for k, n in qa.items() if k not in ("sys", "post")) == sum(n for k, n in qb.items() if k not in ("sys", "post")):
        return "loop kind %s / %s" % (qa, qb)
    new = vb - vocabulary(a)
    if new:
        return "loop replaced by %s" % sorted(new)[:4]
    return None


class Result:
    def __init__(self):
        self.functions = self.locations = self.text = self.semantic = self.classes = self.fields = 0
        self.undecided, self.diffs, self.vanished, self.failed = [], [], [], []


def nlocs(r):
    return 3 + len(r["ev"])


def run(pkg, names, classes):
    """Judge the reference functions `names` and classes `classes` on the current package."""
    ref = reference()
    vocab = set(ref["vocab"])
    S = Summaries(pkg, set(ref["opaque"]))
    R = Result()
    shallow = {}

    def shdiff(q):
        if q not in shallow:
            c = S.get(q, False) if q in pkg.fns else None
            if c is None:
                shallow[q] = None
            else:
                shallow[q] = compare(ref["functions"][q]["s"], c, vocab)[2]
        return shallow[q]

    def helpers(q):
        """Private functions q's deep summary goes through."""
        out, todo = [], list(ref["functions"][q]["calls"])
        while todo:
            x = todo.pop()
            f = ref["functions"].get(x)
            if f is None or f["entry"] or f["public"] or x in out:
                continue
            out.append(x)
            todo += f["calls"]
        return out

    names = set(names)
    # entry points to judge: those named, and those that go through a named helper
    judge = set()
    for q in ref["functions"]:
        f = ref["functions"][q]
        if not f["entry"]:
            continue
        if q in names or any(h in names for h in helpers(q)):
            judge.add(q)
    for q in sorted(judge):
        f = ref["functions"][q]
        if q not in pkg.fns:
            R.vanished.append(q)
            continue
        c = S.get(q, True)
        if c is None:
            R.failed.append((q, "not analysable"))
            continue
        R.functions += 1
        R.locations += nlocs(f["d"])
        nt, ns, diffs = compare(f["d"], c, vocab)
        R.text += nt
        R.semantic += ns
        if not diffs:
            continue
        # where is it
        blame = [h for h in helpers(q) if h in pkg.fns and any(d.kind != "undecided" for d in (shdiff(h) or []))]
        own = q not in pkg.fns or any(d.kind != "undecided" for d in (shdiff(q) or []))
        if not own and blame and not any(h in names for h in blame):
            continue            # some other property's helper
        if q not in names and not any(h in names for h in blame):
            continue
        for d in diffs:
            if d.kind == "undecided":
                R.undecided.append((q, d.loc + ": " + d.ref[0]))
            else:
                at = blame[0] if blame and not own else q
                R.diffs.append((q, at, pkg.fns[at], d))
    for q in sorted(classes):
        if q not in pkg.classes:
            R.vanished.append(q)
            continue
        a, b = ref["classes"][q], class_table(pkg, q)
        R.classes += 1
        node, mod = pkg.classes[q]

        def add(loc, kind, x, y, line):
            R.diffs.append((q, q, (mod.path, line), Diff(loc, kind, x, y)))
        lines = {}
        for s in node.body:
            for t in (s.targets if isinstance(s, ast.Assign) else [s.target] if isinstance(s, ast.AnnAssign) else []):
                if isinstance(t, ast.Name):
                    lines[t.id] = s.lineno
        inherited = set()
        for n, (ann, dflt) in a["fields"].items():
            R.fields += 1
            if n not in b["fields"]:
                if any(x not in ref["classes"] and x in pkg.classes for x in b["bases"]):
                    R.undecided.append((q, "field %s moved to a new base" % n))
                    continue
                add("field " + n, "missing", [ann], [], node.lineno)
                continue
            ann2, d2 = b["fields"][n]
            R.locations += 1
            if ann != ann2:
                if known_words(ann2, ref):
                    add("type of field " + n, "differs", [ann], [ann2], lines.get(n, node.lineno))
                else:
                    R.undecided.append((q, "type of field %s: %s" % (n, ann2)))
            else:
                R.text += 1
            if dflt is not d2:
                bad = False
                for s in range(8):
                    ev = Ev(s)
                    if repr(ev.ev(dflt)) != repr(ev.ev(d2)):
                        bad = True
                if bad:
                    if vocabulary([d2]) - vocab:
                        R.undecided.append((q, "default of " + n))
                    else:
                        add("default of field " + n, "differs", show([dflt]), show([d2]), lines.get(n, node.lineno))
    return R


_WORDS = None


def known_words(s, ref):
    import re
    global _WORDS
    if _WORDS is None:
        _WORDS = set()
        for c in ref["classes"].values():
            for ann, _ in c["fields"].values():
                _WORDS |= set(re.findall(r"[\w.]+", ann))
    return all(w in _WORDS for w in re.findall(r"[\w.]+", s))


if __name__ == "__main__":
    if len(sys.argv) > 1 and sys.argv[1] == "--write":
        write()
    else:
        t0 = time.time()
        ref = reference()
        pat = sys.argv[1] if len(sys.argv) > 1 else ""
        r = run(load(), [q for q in ref["functions"] if pat in q], [q for q in ref["classes"] if pat in q])
        print("functions %d classes %d fields %d locations %d text %d semantic %d undecided %d vanished %s failed %s %.1fs" % (
            r.functions, r.classes, r.fields, r.locations, r.text, r.semantic, len(r.undecided), r.vanished, r.failed, time.time() - t0))
        for u in r.undecided:
            print("  undecided", u)
        for q, at, f, d in r.diffs:
            print("DIFF", q, at, d.loc, d.kind)
            for x in d.ref[:3]:
                print("   - ", x[:300])
            for x in d.cur[:3]:
                print("   + ", x[:300])
