"""Synchronisation of shared state between the threads of a parallel region.

For every function that threads of a team execute, the accesses to shared state
(flow control, handover storage, shared solver arrays, scalars of the driver) are
followed in program order through calls, branches and loops.  Two accesses of the
same location, at least one a write, are *unordered* when some path leads from one
to the other without a barrier (explicit, or the implicit one that ends a single,
for or parallel construct); the analysis computes, bottom-up, the set of unordered
pairs together with the construct (single, critical, none) that protects each side.
A pair that the reviewed reference does not have means that a barrier, a single or
a critical construct no longer separates the threads there.
"""
import contextlib
import gzip
import json
import os
import re
import sys

import cxx

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SHARED_CLASSES = ("vmecpp::FlowControl", "vmecpp::HandoverStorage")
SPANS = ("vmecpp::LaplaceSolver", "vmecpp::FreeBoundaryBase", "vmecpp::Nestor", "vmecpp::OnlyCoils")
SCALAR = re.compile(r"^(const )?(int|bool|double|vmecpp::(VacuumPressureState|VmecStatus|RestartReason))( &)?$")


PARTITION = ("vmecpp::RadialPartitioning", "vmecpp::TangentialPartitioning")
VALUE = re.compile(r"^(const )?(int|bool|long|double|size_t|unsigned long)$")
WRITERS = {"c_fill_n": 0, "c_fill": 0, "fill": 0, "fill_n": 0, "swap": 0, "c_copy": 1, "copy": 2, "copy_n": 2, "c_transform": 1, "accumulate": 9}
NACC = [0]
DIVERGE = ("<barrier that only some threads reach>", ("d", ""), ("d", ""))


def bare(n):
    n = n[2:] if n.startswith("m_") else n
    return n.rstrip("_")


class Eff:
    """entry: accesses before any barrier; exit: accesses after the last one; through: a barrier-free path exists."""
    __slots__ = ("entry", "exit", "through", "pairs", "ret", "live", "bar", "all")

    def __init__(self, entry=frozenset(), exit=frozenset(), through=True, pairs=None, ret=None, live=True, bar=False, all=None):
        self.entry, self.exit, self.through = entry, exit, through
        self.pairs = pairs or {}
        self.ret = ret          # (exit, through) of the paths that left the function
        self.live = live
        self.all = entry | exit if all is None else all
        self.bar = bar          # contains a construct the whole team must reach


SKIP = Eff()
BARRIER = Eff(through=False, bar=True)


def cross(a, b, pairs):
    if not a or not b:
        return
    by = {}
    for x in b:
        by.setdefault(x[0], []).append(x)
    for x in a:
        for y in by.get(x[0], ()):
            if "w" not in (x[1], y[1]):
                continue
            if x[2] == y[2] == "critical":
                continue
            k = tuple(sorted(((x[1], x[2]), (y[1], y[2]))))
            pairs.setdefault((x[0],) + k, (x[3], y[3]))
            if x[4] and y[4] and x[4] != y[4]:
                # the two sides divide the same data among the threads differently
                u, v = sorted((x, y), key=lambda z: (z[4], z[1]))
                pairs.setdefault(("%s by %s/%s" % (x[0], u[4], v[4]), (u[1], u[2]), (v[1], v[2])), (x[3], y[3]))


def seq(a, b):
    if a is SKIP:
        return b
    if b is SKIP:
        return a
    if not a.live:
        return a
    pairs = dict(a.pairs)
    pairs.update(b.pairs)
    cross(a.exit, b.entry, pairs)
    ret = a.ret
    if b.ret is not None:
        r = (b.ret[0] | a.exit if b.ret[1] else b.ret[0], a.through and b.ret[1])
        ret = r if ret is None else (ret[0] | r[0], ret[1] or r[1])
    return Eff(a.entry | b.entry if a.through else a.entry, b.exit | a.exit if b.through else b.exit,
               a.through and b.through, pairs, ret, b.live, a.bar or b.bar, a.all | b.all)


def alt(a, b):
    pairs = dict(a.pairs)
    pairs.update(b.pairs)
    ret = a.ret if b.ret is None else b.ret if a.ret is None else (a.ret[0] | b.ret[0], a.ret[1] or b.ret[1])
    ex = (a.exit if a.live else frozenset()) | (b.exit if b.live else frozenset())
    return Eff(a.entry | b.entry, ex, (a.through and a.live) or (b.through and b.live), pairs, ret, a.live or b.live, a.bar or b.bar, a.all | b.all)


def star(a):
    pairs = dict(a.pairs)
    cross(a.exit, a.entry, pairs)
    return Eff(a.entry, a.exit, True, pairs, a.ret, True, a.bar, a.all)


class Sync:
    def __init__(self, prog):
        self.prog = prog
        self.memo = {}
        self.busy = set()
        self.over = prog.overriders
        self.fieldty = {c + "::" + f["n"]: f["ty"] for c, r in prog.records.items() for f in r["fields"]}
        self.prot = ""
        self.alias = {}
        self.fn = None
        self.sliced = set()
        self.var = set()
        self.outerty = {}
        self.outer = {}         # locals declared outside a parallel region and used inside it
        for f in prog.fns.values():
            if f.body is None:
                continue
            for n in cxx.walk(f.body):
                if n["k"] == "omp" and "parallel" in n["d"]:
                    inner = {v["id"] for d in cxx.walk(n) if d["k"] == "decl" for v in d["v"]}
                    decls = {v["id"]: v for d in cxx.walk(f.body) if d["k"] == "decl" for v in d["v"]}
                    for r in cxx.walk(n):
                        v = decls.get(r.get("id")) if r["k"] == "ref" else None
                        if v is not None and v["id"] not in inner and not f.types[v["t"]].startswith("const "):
                            self.outer[f.key, v["id"]] = bare(v["n"])
                            self.outerty[f.key, v["id"]] = f.types[v["t"]]

    @staticmethod
    def driver(c, n, t):
        return c == "vmecpp::Vmec" and (SCALAR.match(t) is not None or "Eigen::Matrix<" in t)

    # -- shared locations
    def shared(self, e):
        self.came = ""
        if e["k"] == "mem" and e.get("mk") == "field":
            q = e.get("qn", "")
            c = q.rsplit("::", 1)[0]
            if c in SHARED_CLASSES:
                return bare(e["n"])
            t = self.fieldty.get(q, "")
            if self.driver(c, e["n"], t):
                return bare(e["n"])
            if ("span<" in t and c in SPANS) or (t.endswith("&") and SCALAR.match(t)):
                return bare(e["n"])
        elif e["k"] == "ref":
            if e.get("id") in self.alias:
                k, sl = self.alias[e["id"]]
                self.came = sl
                return k
            if self.fn is not None and (self.fn.key, e.get("id")) in self.outer:
                return self.outer[self.fn.key, e["id"]]
        return None

    def acc(self, key, kind, e):
        sl = self.slice or self.came
        s = frozenset([(key, kind, self.prot, "%s:%d" % (self.fn.file if self.fn else "?", e["p"][0]), sl)])
        if sl:
            self.sliced.add("%s %s by %s" % (key, kind, sl))
        pairs = {}
        NACC[0] += 1
        if kind == "w" and self.prot == "":
            pairs[(key, ("w", ""), ("w", ""))] = ("%s:%d" % (self.fn.file, e["p"][0]),) * 2
        return Eff(s, s, True, pairs)

    # -- expressions
    def ex(self, e, w=False, rw=False):
        if not isinstance(e, dict):
            return SKIP
        k = e["k"]
        key = self.shared(e)
        if key is not None:
            r = SKIP if w and not rw else self.acc(key, "r", e)
            if w:
                r = seq(r, self.acc(key, "w", e))
            return r
        if k == "mem":
            return self.ex(e["b"], w, rw) if "b" in e else SKIP
        if k == "bin":
            op = e["op"]
            if op.endswith("=") and op not in ("==", "!=", "<=", ">="):
                return seq(self.ex(e["r"]), self.ex(e["l"], True, op != "="))
            if op in ("&&", "||"):
                return seq(self.ex(e["l"]), alt(self.ex(e["r"]), SKIP))
            return seq(self.ex(e["l"]), self.ex(e["r"]))
        if k == "un":
            if e["op"] in ("++", "--"):
                return self.ex(e["e"], True, True)
            return self.ex(e["e"], w, rw)
        if k == "idx":
            i = self.ex(e["i"])
            with self.by(e["i"]):
                return seq(i, self.ex(e["b"], w, rw))
        if k == "opcall":
            a = e["args"]
            op = e["op"]
            if op in ("[]", "()", "*", "->"):
                r = SKIP
                for x in a[1:]:
                    r = seq(r, self.ex(x))
                with self.by(a[1:]):
                    r = seq(r, self.ex(a[0], w, rw))
                return seq(r, self.callee(e)) if op == "()" else r
            if op == "=" or (op.endswith("=") and op not in ("==", "!=", "<=", ">=")) or op in ("++", "--"):
                r = SKIP
                for x in a[1:]:
                    r = seq(r, self.ex(x))
                return seq(r, self.ex(a[0], True, op != "="))
            r = SKIP
            for x in a:
                r = seq(r, self.ex(x))
            return seq(r, self.callee(e))
        if k in ("mcall", "call", "ctor"):
            r = SKIP
            fn = self.target(e)
            for j, x in enumerate(e.get("args", ())):
                wr = False
                if self.bound(fn, j, x) is not None:
                    continue        # followed inside the callee
                if fn is not None and j < len(fn.params):
                    t = fn.types[fn.params[j]["t"]]
                    wr = ("&" in t or "*" in t or "span<" in t) and not t.startswith("const ") and "span<const" not in t and not any(c.split("::")[-1] in t for c in SHARED_CLASSES)
                else:       # not in the sources: writes through pointers and in-place algorithms
                    t = self.fn.types[x["t"]] if self.fn is not None and "t" in x else ""
                    wr = (x["k"] == "un" and x["op"] == "&") or t.endswith("*") and not t.startswith("const ") or e.get("n") in WRITERS and j == WRITERS[e["n"]]
                key = self.root(x) if wr else None
                with self.by(x if key is not None else None):
                    r = seq(r, seq(self.acc(key, "r", x), self.acc(key, "w", x)) if key is not None else self.ex(x, wr, True))
            if k == "mcall" and "obj" in e:
                wr = fn is None and not e.get("const") and e["n"] not in ("size", "begin", "end", "at", "rows", "cols")
                with self.by(e.get("args") if fn is None else None):
                    r = seq(r, self.ex(e["obj"], wr, True))
            b = {}
            if fn is not None and fn.body is not None:
                for j, x in enumerate(e.get("args", ())):
                    key = self.bound(fn, j, x)
                    if key is not None:
                        came = self.came
                        with self.by(x):
                            b[fn.params[j]["id"]] = (key, self.slice or came)
            return seq(r, self.callee(e, b))
        if k == "cond":
            return seq(self.ex(e["c"]), alt(self.ex(e["a"]), self.ex(e["b"])))
        if k == "lambda":
            r = SKIP
            for f in e.get("fns", ())[:1]:
                if isinstance(f, dict) and isinstance(f.get("body"), dict):
                    b = self.st(f["body"])
                    r = Eff(b.entry, b.exit if b.live else b.ret[0] if b.ret else frozenset(), b.through, b.pairs, bar=b.bar, all=b.all)
            return r
        if k in ("ref", "lit", "str", "this", "nullptr"):
            return SKIP
        r = SKIP
        for v in e.values():
            for x in (v if isinstance(v, list) else [v]):
                if isinstance(x, dict) and "k" in x:
                    r = seq(r, self.ex(x))
        return r

    def bound(self, fn, j, x):
        """The shared location that parameter j of fn stands for in this call, if any."""
        if fn is None or fn.body is None or j >= len(fn.params):
            return None
        t = fn.types[fn.params[j]["t"]]
        if not (t.endswith(("&", "*")) or "span<" in t):
            return None
        return self.root(x)

    def root(self, x):
        """The shared location that a pointer, view or reference expression leads into, if any."""
        while isinstance(x, dict):
            key = self.shared(x)
            if key is not None:
                return key
            k = x["k"]
            if k in ("cast", "un"):
                x = x.get("e")
            elif k == "ctor":
                x = x["args"][0] if x.get("args") else None
            elif k == "mcall" and x["n"] in ("data", "subspan", "first", "last", "segment", "head", "tail", "begin"):
                x = x.get("obj")
            elif k == "bin" and x["op"] in ("+", "-"):
                x = x["l"]
            elif k == "idx":
                x = x["b"]
            elif k == "opcall" and x["op"] in ("[]", "()", "+", "*"):
                x = x["args"][0]
            else:
                return None
        return None

    def target(self, e):
        """The called function; for a pure virtual one, an override."""
        fn = self.prog.fns.get(e.get("key"))
        if e.get("virt") and (fn is None or fn.body is None):
            for k in self.overriders(e.get("key")):
                if self.prog.fns.get(k) is not None and self.prog.fns[k].body is not None:
                    return self.prog.fns[k]
        return fn

    def callee(self, e, binds=None):
        ks = [e.get("key")]
        if e.get("virt"):
            ks += list(self.overriders(e.get("key")))
        out = None
        base = self.target(e)
        for k in ks:
            f = self.prog.fns.get(k)
            if f is None or f.body is None:
                continue
            b = binds
            if binds and f is not base:
                b = {f.params[j]["id"]: binds[p["id"]] for j, p in enumerate(base.params) if p["id"] in binds and j < len(f.params)}
            x = self.function(k, b)
            x = self.protected(x)
            out = x if out is None else alt(out, x)
        return out or SKIP

    def overriders(self, key, seen=None):
        seen = set() if seen is None else seen
        for k in self.over.get(key, ()):
            if k not in seen:
                seen.add(k)
                yield k
                yield from self.overriders(k, seen)

    def protected(self, x):
        if not self.prot:
            return x
        f = lambda s: frozenset((a[0], a[1], self.prot, a[3], a[4]) for a in s)
        return Eff(f(x.entry), f(x.exit), x.through, {}, (f(x.ret[0]), x.ret[1]) if x.ret else None, x.live, x.bar, f(x.all))

    def function(self, key, binds=None):
        mk = (key, tuple(sorted((binds or {}).items())))
        if mk in self.memo:
            return self.memo[mk]
        if key in self.busy:
            return SKIP
        self.busy.add(key)
        f = self.prog.fns[key]
        saved = self.fn, self.alias, self.prot, self.var, self.kinds, self.slice
        self.fn, self.alias, self.prot, self.var, self.kinds, self.slice = f, dict(binds or {}), "", self.taint(f), self.divide(f), ""
        b = self.st(f.body)
        self.fn, self.alias, self.prot, self.var, self.kinds, self.slice = saved
        self.busy.discard(key)
        ex, th = (b.exit, b.through) if b.live else (frozenset(), False)
        if b.ret is not None:
            ex, th = ex | b.ret[0], th or b.ret[1]
        r = self.memo[mk] = Eff(b.entry, ex, th, b.pairs, bar=b.bar, all=b.all)
        return r

    # -- statements
    def st(self, s):
        if not isinstance(s, dict):
            return SKIP
        k = s["k"]
        if k == "block":
            r = SKIP
            for c in s["c"]:
                r = seq(r, self.st(c))
            return r
        if k == "if":
            r = seq(self.st(s.get("init")), self.ex(s.get("cond")))
            if isinstance(s.get("var"), dict):
                r = seq(r, self.decl(s["var"]))
            x = alt(self.st(s["then"]), self.st(s.get("else")))
            return seq(r, self.diverge(x, s.get("cond"), s))
        if k == "for":
            c = self.ex(s.get("cond"))
            body = seq(seq(c, self.st(s["body"])), self.st(s.get("inc")))
            return seq(seq(self.st(s.get("init")), self.diverge(star(body), [s.get("cond"), s.get("init")], s)), c)
        if k == "rfor":
            return seq(self.ex(s.get("range")), star(self.st(s["body"])))
        if k in ("while", "do"):
            c = self.ex(s.get("cond"))
            if str(s.get("mac", "")).startswith(("CHECK", "DCHECK", "QCHECK")):
                return c
            return seq(self.diverge(star(seq(c, self.st(s["body"]))), s.get("cond"), s), c)
        if k == "switch":
            return seq(self.ex(s["cond"]), alt(self.st(s["body"]), SKIP))
        if k in ("case", "default"):
            return alt(self.st(s["sub"]), SKIP)
        if k == "decl":
            r = SKIP
            for v in s["v"]:
                r = seq(r, self.decl(v))
            return r
        if k == "ret":
            r = self.ex(s.get("e"))
            return Eff(r.entry, frozenset(), False, r.pairs, (r.exit, r.through), False, r.bar, r.all)
        if k == "throw":
            r = self.ex(s.get("e"))
            return Eff(r.entry, frozenset(), False, r.pairs, None, False, r.bar, r.all)
        if k == "omp":
            return self.omp(s)
        if k in ("break", "continue", "null"):
            return SKIP
        if k == "try":
            return alt(self.st(s["body"]), SKIP)
        return self.ex(s)

    def diverge(self, x, cond, s):
        """A barrier or worksharing construct under a condition that differs between threads."""
        if x.bar and self.varies(cond):
            x = Eff(x.entry, x.exit, x.through, dict(x.pairs), x.ret, x.live, x.bar, x.all)
            x.pairs[DIVERGE] = ("%s:%d" % (self.fn.file, s["p"][0]),) * 2
        return x

    def varies(self, e):
        for n in cxx.walk(e if isinstance(e, (dict, list)) else []):
            if n["k"] == "mem" and n.get("qn", "").rsplit("::", 1)[0] in PARTITION:
                return True
            if n["k"] == "ref" and (n.get("id") in self.var or n.get("n") == "thread_id"):
                return True
            if n["k"] in ("call", "mcall") and n.get("n") == "omp_get_thread_num":
                return True
        return False

    def kind(self, e):
        """How the variables of e divide work among the threads: by surface, by grid point, by thread number."""
        for n in cxx.walk(e if isinstance(e, (dict, list)) else []):
            if n["k"] == "mem" and n.get("mk") == "field" and n.get("qn", "").rsplit("::", 1)[0] in PARTITION:
                return "surface" if "Radial" in n["qn"] else "point"
            if n["k"] == "ref" and n.get("id") in self.kinds:
                return self.kinds[n["id"]]
            if n["k"] in ("call", "mcall") and n.get("n") in ("omp_get_thread_num", "get_thread_id"):
                return "number"
        return ""

    @contextlib.contextmanager
    def by(self, e):
        old = self.slice
        self.slice = old or (self.kind(e) if e else "")
        yield
        self.slice = old

    def divide(self, f):
        """Loop variables (and locals) of f that run over a thread's own share."""
        self.kinds = {}
        for _ in range(3):
            n0 = len(self.kinds)
            for n in cxx.walk(f.body):
                if n["k"] == "decl":
                    for v in n["v"]:
                        if VALUE.match(f.types[v["t"]] if "t" in v else "") and v["id"] not in self.kinds:
                            k = self.kind(v.get("init"))
                            if k:
                                self.kinds[v["id"]] = k
            if len(self.kinds) == n0:
                break
        return self.kinds

    def taint(self, f):
        """Locals of f that differ between the threads of a team."""
        old = getattr(self, "var", set())
        self.var = {p["id"] for p in f.params if p["n"] in ("thread_id", "myid")}
        for _ in range(3):
            n0 = len(self.var)
            for n in cxx.walk(f.body):
                if n["k"] == "decl":
                    for v in n["v"]:
                        t = f.types[v["t"]] if "t" in v else ""
                        if VALUE.match(t) and self.varies(v.get("init")):
                            self.var.add(v["id"])
                elif n["k"] == "bin" and n["op"] == "=" and n["l"]["k"] == "ref" and self.varies(n["r"]):
                    self.var.add(n["l"].get("id"))
            if len(self.var) == n0:
                break
        r, self.var = self.var, old
        return r

    def decl(self, v):
        i = v.get("init")
        if isinstance(i, dict):
            l = next((n for n in cxx.walk(i) if n["k"] == "lambda"), None)
            f = l["fns"][0] if l and l.get("fns") and isinstance(l["fns"][0], dict) else None
            if f and self.fn is not None and isinstance(f.get("body"), dict):
                # a local accessor returning a reference into shared data stands for that data
                rets = [n.get("e") for n in cxx.walk(f["body"]) if n["k"] == "ret"]
                keys = {self.root(r) for r in rets if isinstance(r, dict)}
                rt = f.get("rt")
                rt = self.fn.types[rt] if isinstance(rt, int) else str(rt)
                if len(keys) == 1 and None not in keys and rt.endswith("&"):
                    self.alias[v["id"]] = (keys.pop(), self.came)
                    return SKIP
            t = self.fn.types[v["t"]] if self.fn is not None and "t" in v else ""
            if t.endswith(("&", "*")) or "span<" in t or "Map<" in t:
                key = self.root(i)
                if key is not None:
                    came = self.came
                    with self.by(i):
                        self.alias[v["id"]] = (key, self.slice or came)
                    return SKIP
            return self.ex(i)
        return SKIP

    def omp(self, s):
        d = s["d"]
        cl = {c["n"] for c in s["cl"]}
        if d == "barrier":
            return BARRIER
        body = s.get("body")
        if d in ("single", "master", "critical", "atomic"):
            old, self.prot = self.prot, "single" if d in ("single", "master") else "critical"
            b = self.st(body)
            self.prot = old
            b = Eff(b.entry, b.exit, b.through, {DIVERGE: ("%s:%d" % (self.fn.file, s["p"][0]),) * 2} if b.bar and d != "atomic" else {}, b.ret, b.live, all=b.all)
            return seq(b, BARRIER) if d == "single" and "nowait" not in cl else b
        if "parallel" in d:
            old, self.prot = self.prot, ""
            b = self.st(body)
            self.prot = old
            if self.fn is not None:
                self.regions.setdefault(self.fn.qn + "#" + d, {}).update(b.pairs)
            # for an enclosing team the whole region is one access by the thread that meets it
            a = self.protected(Eff(b.all, b.all))
            return Eff(a.entry, a.exit)
        b = self.st(body)
        return seq(b, BARRIER) if d == "for" and "nowait" not in cl else b

    regions = {}
    kinds = {}
    slice = came = ""


def calls(body):
    for n in cxx.walk(body):
        if n.get("key"):
            yield n["key"], bool(n.get("virt"))


def analyse(prog):
    """{function or region: {pair: sites}} for everything a team of threads executes."""
    s = Sync(prog)
    s.regions = {}
    roots = set()
    for k, f in prog.fns.items():
        if f.body is None:
            continue
        for n in cxx.walk(f.body):
            if n["k"] == "omp" and "parallel" in n["d"]:
                s.function(k)
                for c, virt in calls(n):
                    roots.add(c)
                    if virt:
                        roots |= set(s.overriders(c))
    seen = set()
    todo = list(roots)
    while todo:
        k = todo.pop()
        if k in seen or k not in prog.fns or prog.fns[k].body is None:
            continue
        seen.add(k)
        for c, virt in calls(prog.fns[k].body):
            todo.append(c)
            if virt:
                todo.extend(s.overriders(c))
    out = dict(s.regions)
    import spec
    for k in seen:
        out[spec.fkey(prog.fns[k], prog)] = s.function(k).pairs
    flags = {n for (k, i), n in s.outer.items() if SCALAR.match(s.outerty.get((k, i), ""))}
    analyse.sliced = s.sliced
    return out, flags, {spec.fkey(prog.fns[k], prog): {spec.fkey(prog.fns[c], prog) for c, _ in calls(prog.fns[k].body) if c in seen} for k in seen}


def show(p):
    f = lambda x: "%s%s" % ({"w": "write", "r": "read", "d": "barrier"}[x[0]], " in %s" % x[1] if x[1] else "")
    return "%s / %s" % (f(p[1]), f(p[2]))


def path():
    return os.path.join(HERE, "spec", "sync.json.gz")


def write(prog):
    out, _, _ = analyse(prog)
    d = {k: sorted([p[0], list(p[1]), list(p[2])] for p in v) for k, v in out.items()}
    d["#sliced"] = sorted(analyse.sliced)
    with gzip.GzipFile(path(), "wb", mtime=0) as g:
        g.write(json.dumps(d, sort_keys=True).encode())
    return d


def check(prog):
    """[(function, pair, sites)] not in the reference, and counts."""
    with gzip.open(path()) as g:
        ref = json.loads(g.read())
    sliced = set(ref.pop("#sliced"))
    ref = {k: {(p[0], tuple(p[1]), tuple(p[2])) for p in v} for k, v in ref.items()}
    out, flags, cg = analyse(prog)
    bad = {}
    for k, v in out.items():
        if k not in ref:
            continue
        # scalar locals of the region's owner that every thread already writes without order (the same value,
        # by design): a read adds nothing
        same = {p[0] for p in ref[k] if p[0] in flags and p[1] == ("w", "") and p[2] == ("w", "")}
        for p, sites in v.items():
            if " by " in p[0]:      # both divisions of the data must be ones the reference recognised
                n, _, a = p[0].partition(" by ")
                a = a.split("/")
                if not {"%s %s by %s" % (n, p[1][0], a[0]), "%s %s by %s" % (n, p[2][0], a[1])} <= sliced:
                    continue
            if p not in ref[k] and not (p[0] in same and p[1][1] == p[2][1] == ""):
                bad.setdefault(p, {})[k] = sites
    res = []
    for p, fs in sorted(bad.items(), key=repr):
        # report where it originates: no callee has it too
        inner = [k for k in fs if not any(c in fs for c in cg.get(k, ()) if c != k)] or list(fs)
        for k in sorted(inner)[:3]:
            res.append((k, p, fs[k]))
    n = {"functions": len(out), "pairs": sum(len(v) for v in out.values()), "not_in_reference": len([k for k in out if k not in ref]),
         "vanished": len([k for k in ref if k not in out]), "in_reference": len(ref), "regions": len([k for k in out if "#parallel" in k]), "accesses": NACC[0]}
    samples = ["%s: %s: %s at %s, %s" % (k, p[0], show(p), s[0], s[1]) for k, v in sorted(out.items()) if "#parallel" in k for p, s in sorted(v.items(), key=repr)[::9]][:12]
    return res, n, samples


if __name__ == "__main__":
    prog = cxx.load()
    if "--write" in sys.argv:
        d = write(prog)
        print(len(d), "functions", sum(map(len, d.values())), "unordered pairs", os.path.getsize(path()), "bytes")
    else:
        r, n, _ = check(prog)
        print(n)
        for k, p, s in r:
            print(k, p[0], show(p), *s)
