"""Reference summaries: collection, (de)serialisation, comparison."""
import gzip
import json
import os
from fractions import Fraction

import summary
import absint
from absint import Cond, ListV, Obj, Opq, Ptr, Ref, STATES, Str, strip_ty
from equiv import quick, same_updates
import hashlib
import time
from sym import Poly, contains, and_, TRUE, deep

VERSION = 1


# ---------------------------------------------------------------- codec
class Enc:
    def __init__(self):
        self.t = []
        self.ix = {}
        self.need = set()
        self.m = {}

    def e(self, x):
        if isinstance(x, (Poly, Cond)) or (isinstance(x, tuple) and len(x) > 1):
            h = self.m.get(id(x))
            if h is None:
                h = self.m[id(x)] = (x, self.e1(x))
            return h[1]
        return self.e1(x)

    def put(self, rec):
        k = json.dumps(rec)
        i = self.ix.get(k)
        if i is None:
            i = self.ix[k] = len(self.t)
            self.t.append(rec)
        return i

    def e1(self, x):
        if x is None or isinstance(x, (bool, int, str)):
            return self.put(["c", x])
        if isinstance(x, Fraction):
            return self.put(["f", str(x)])
        if isinstance(x, Poly):
            ts = sorted([str(c), [[self.e(a), p] for a, p in m]] for m, c in x.t.items())
            return self.put(["P", ts])
        if isinstance(x, Cond):
            return self.put(["C", self.e(x.c)])
        if isinstance(x, Str):
            return self.put(["S", x.s])
        if isinstance(x, Ref):
            return self.put(["R", self.e(x.path)])
        if isinstance(x, Ptr):
            return self.put(["p", self.e(x.path), self.e(x.off)])
        if isinstance(x, ListV):
            return self.put(["L", [self.e(y) for y in x.items]])
        if isinstance(x, Obj):
            return self.put(["O", x.ty, [[k, self.e(v)] for k, v in sorted(x.f.items())]])
        if isinstance(x, Opq):
            return self.put(["Q", x.name, [self.e(y) for y in x.args]])
        if isinstance(x, tuple) and len(x) == 4 and x[0] == "loc":
            x = ("loc", 0, 0, "$")
        if isinstance(x, tuple) and len(x) in (2, 3) and x[0] == "acc" and isinstance(x[1], tuple):
            x = ("acc", x[1][2]) + x[2:]
        if isinstance(x, tuple) and len(x) == 3 and x[0] == "lv":
            x = ("lv", 0, "?")
        if isinstance(x, tuple) and len(x) in (2, 3) and x[0] == "u" and isinstance(x[1], str):
            x = ("u", summary.uname(x[1])) + x[2:]
        if isinstance(x, tuple) and len(x) == 3 and x[0] == "ld" and isinstance(x[2], int) and x[2] > 1:
            x = (x[0], x[1], 1)
        if isinstance(x, tuple) and len(x) == 2 and x[0] == "st":
            self.need.add(x[1])
        if isinstance(x, tuple) and len(x) == 3 and x[0] == "heap":
            x = ("heap", 0, x[2])
        if isinstance(x, (tuple, list)):
            return self.put(["T", [self.e(y) for y in x]])
        return self.put(["c", "<%s>" % type(x).__name__])


_INTERN = {}


class Dec:
    """Decoded terms; equal terms are one object, whichever summary they come from."""

    def __init__(self, t):
        self.t = t
        self.m = {}
        self.h = {}

    def d(self, i):
        if i not in self.m:
            self.dec(i)
        return self.m[i]

    def g(self, i):
        if i not in self.m:
            self.dec(i)
        return self.h[i]

    def dec(self, i):
        r = self.t[i]
        k = r[0]
        g = self.g
        if k in ("c", "f", "S"):
            key = r
        elif k == "P":
            key = [k, sorted([c, sorted([g(a), p] for a, p in m)] for c, m in r[1])]
        elif k in ("C", "R"):
            key = [k, g(r[1])]
        elif k == "p":
            key = [k, g(r[1]), g(r[2])]
        elif k == "O":
            key = [k, r[1], [[a, g(b)] for a, b in r[2]]]
        elif k == "Q":
            key = [k, r[1], [g(y) for y in r[2]]]
        else:
            key = [k, [g(y) for y in r[1]]]
        h = self.h[i] = hashlib.blake2b(json.dumps(key).encode(), digest_size=12).hexdigest()
        v = _INTERN.get(h, _INTERN)
        if v is _INTERN:
            v = _INTERN[h] = self.dec1(r, k)
        self.m[i] = v

    def dec1(self, r, k):
        if k == "c":
            return r[1]
        if k == "f":
            return Fraction(r[1])
        if k == "P":
            d = {}
            for c, m in r[1]:
                d[tuple((self.d(a), p) for a, p in sorted(m, key=lambda z: self.g(z[0])))] = Fraction(c)
            return Poly(d)
        if k == "C":
            return Cond(self.d(r[1]))
        if k == "S":
            return Str(r[1])
        if k == "R":
            return Ref(self.d(r[1]))
        if k == "p":
            return Ptr(self.d(r[1]), self.d(r[2]))
        if k == "L":
            return ListV([self.d(y) for y in r[1]])
        if k == "O":
            return Obj({a: self.d(b) for a, b in r[2]}, r[1])
        if k == "Q":
            return Opq(r[1], [self.d(y) for y in r[2]])
        return tuple(self.d(y) for y in r[1])


# ---------------------------------------------------------------- collection
def returned_streams(body):
    """Ids of the local streams whose text a function returns (other than in an error message)."""
    from cxx import walk
    out = set()

    def go(x):
        if isinstance(x, dict):
            if x.get("k") == "call" and str(x.get("qn", "")).endswith("Error"):
                return
            if x.get("k") == "mcall" and str(x.get("qn", x.get("n", ""))).endswith("str"):
                for y in walk(x):
                    if y["k"] == "ref" and y.get("id") is not None:
                        out.add(y["id"])
            for v in x.values():
                go(v)
        elif isinstance(x, list):
            for v in x:
                go(v)

    for s in walk(body):
        if s["k"] in ("return", "ret"):
            go(s)
    return out


class Coll(summary.Summ):
    """Summary plus the calls it makes to opaque repository functions and to effectful externals."""

    effects = ("nc_", "hdf5_io::", "H5::", "std::mutex", "std::construct_at", "omp_")
    error_guards = False

    def can_inline(self, fn):
        return not fn.qn.startswith("hdf5_io::") and super().can_inline(fn)

    def __init__(self, prog):
        super().__init__(prog)
        self.events = []
        self.texts = {}
        self.manip = {}

    def on_call(self, name, node, args, obj):
        if name.startswith("absl::") and name.endswith("Error"):
            return Opq(name, ())
        if self.dry:
            return None
        if node.get("op") == "<<" and len(args) == 2:
            self.stream(node, args[1])
        if name in self.opaque or name.startswith(self.effects):
            self.events.append((name, obj, [v if v is not None else (Ref(lv) if lv is not None else None) for v, lv in args], self.ctx()))
        return None

    def stream(self, node, arg):
        """Text put into a local stream whose contents are returned."""
        x = node
        while x.get("k") in ("opcall", "cast", "paren") and (x.get("op") == "<<" or x["k"] != "opcall"):
            x = x["args"][0] if x["k"] == "opcall" else x["e"]
        if x.get("k") != "ref" or "stringstream" not in (self.ty(x) or ""):
            return
        p = self.lv_quiet(x)
        fr = self.fr
        while p and p[0][0] == "loc" and fr is not None and fr.id != p[0][1]:
            fr = fr.parent
        if not p or p[0][0] != "loc" or fr is None or fr.fn is None:
            return
        if id(fr.fn) not in self.texts:
            self.texts[id(fr.fn)] = returned_streams(fr.fn.body)
        if p[0][2] not in self.texts[id(fr.fn)]:
            return
        v = arg[0] if arg[0] is not None else (Ref(arg[1]) if arg[1] is not None else None)
        key = p[0]
        if isinstance(v, Opq) and v.name.startswith("std::set"):
            self.manip[key] = v
            return
        if not isinstance(v, Str):
            v = Opq("text", (self.manip.get(key), v))
        c = self.ctx()
        if self.events and self.events[-1][0] == "text" and self.events[-1][3] == c:
            old = self.events[-1][2]
            if isinstance(v, Str) and isinstance(old[-1], Str):
                old[-1] = Str(old[-1].s + v.s)
            else:
                old.append(v)
            return
        self.events.append(("text", None, [v], c))

    def on_check(self, s, cond):
        if not self.dry:
            self.events.append(("check", None, [Cond(cond)], self.ctx()))

    def on_throw(self, v, e):
        n = v.name if isinstance(v, Opq) else ""
        self.events.append(("throw", None, [Str(n.replace("ctor:", ""))], self.ctx()))

    def on_transition(self, L, loop, arrs, scal, pre, end, brk):
        if loop.atom is not None and loop.lo is not None and loop.hi is not None and brk is None:
            return
        v = loop.atom
        an = lambda x: deep(x, lambda a: Poly.atom(("bv", "i")) if a == v else None)
        tr = []
        for w in scal:
            f = end.get(w)
            if not summary.observable(w) and pre.get(w) is None:
                continue
            if f is None or f == Poly.atom(("acc", L, w)) or f == Cond(("b", ("acc", L, w))) or not isinstance(f, (Poly, Cond, Str, ListV, Obj, Opq)):
                r = end.get(("reg",) + w)
                if r:
                    tr.append((Ref(w), ("st", absint.fingerprint(an(r)))))
                continue
            tr.append((Ref(w), an(f)))
        saved, self.store = self.store, end
        for a in arrs:
            # also what is reached through a local pointer, and local lists carried from turn to turn
            if summary.observable(a) or loop.atom is None and (len(a) > 1 or pre.get(a + ("#size",)) not in (None, end.get(a + ("#size",)))):
                tr.append((Ref(a), ("st", absint.fingerprint(an(self.state_list(a))))))
        self.store = saved
        tr.sort(key=lambda x: summary.rval(x[0], {}) + summary.rval(x[1], {}))
        if tr:
            self.events.append(("iteration", None, [tuple(tr)], self.ctx()))

    def ctx(self):
        return (tuple(self.guards), tuple((l.atom, l.lo, l.hi, l.step) for l in self.loops))


def simp_val(v):
    """Error statuses are identified by their code, not by their message."""
    if isinstance(v, Opq):
        if v.name.startswith("absl::") and v.name.endswith("Error"):
            return Opq(v.name, ())
        return Opq(v.name, [simp_val(x) for x in v.args])
    if isinstance(v, tuple):
        return tuple(simp_val(x) for x in v)
    return v


def canon(u):
    """Bound variables of an update, numbered."""
    if u[0] == "u" and u[1]:
        m = {v: ("rv", i, "v") for i, (v, _) in enumerate(u[1])}
        f = lambda a: Poly.atom(m[a]) if a in m else None
        return ("u", tuple((m[v], deep(n, f)) for v, n in u[1]), deep(u[2], f), deep(u[3], f))
    if u[0] == "ite":
        return ("ite", u[1], tuple(canon(x) for x in u[2]), tuple(canon(x) for x in u[3]))
    return u


def cp_term(c):
    if c is None:
        return Opq("entry", ())
    if c[0] == "phi":
        return Opq("phi", (Cond(c[1]), cp_term(c[2]), cp_term(c[3])))
    return Ref(c[0])


def name_result(v, roots):
    """The local object(s) a function returns become result, result2, ..."""
    if isinstance(v, Ref) and v.path[0][0] == "loc" and len(v.path) == 1:
        if v.path[0] not in roots:
            roots[v.path[0]] = ("param", "result%s" % (len(roots) + 1 if roots else ""))
        return Str(roots[v.path[0]][1])
    if isinstance(v, Opq) and v.name in ("absl::StatusOr", "ctor:absl::StatusOr") and len(v.args) == 1:
        a = name_result(v.args[0], roots)
        return a if isinstance(a, Str) and not isinstance(v.args[0], Str) else v
    if isinstance(v, Opq) and v.name == "phi" and len(v.args) == 3:
        return Opq("phi", (v.args[0], name_result(v.args[1], roots), name_result(v.args[2], roots)))
    return v


def usual_run(fn):
    """Debug checkpoints are off in every run a user can start."""
    return {i: Poly.const(0) for i, p in enumerate(fn.params) if strip_ty(fn.types[p["t"]]).split("::")[-1] == "VmecCheckpoint"}


def rw_sets(summaries):
    """Paths a function writes and reads, from its summary: {key: (written, read)}."""
    out = {}
    for key, s in summaries:
        w, r = set(), set()
        for k in s["locs"]:
            p = loc_path(k)
            if p is not None:
                w.add(p)
        stack = [s["locs"], s["events"]]
        seen, states = set(), set()
        while stack:
            y = stack.pop()
            if isinstance(y, Poly):
                if id(y) in seen:
                    continue
                seen.add(id(y))
                stack.extend(y.atoms())
            elif isinstance(y, dict):
                stack.extend(y.values())
            elif isinstance(y, (tuple, list)):
                if len(y) == 2 and y[0] == "st" and isinstance(y[1], str):
                    if y[1] not in states:
                        states.add(y[1])
                        stack.append(STATES.get(y[1], ()))
                    continue
                if isinstance(y, tuple) and y and (y[0] == ("this",) or isinstance(y[0], tuple) and len(y[0]) == 2 and y[0][0] == "param" and str(y[0][1]).startswith("arg")):
                    r.add(cut(y))
                stack.extend(y)
            elif isinstance(y, (Ref, Ptr)):
                stack.append(y.path)
            elif hasattr(y, "parts"):
                stack.extend(y.parts())
        a, b = out.get(key, ((), ()))
        out[key] = (shortest(w | set(a)), shortest(r | set(b)))
    return out


def cut(p):
    out = [p[0]]
    for x in p[1:]:
        if not isinstance(x, str) or x.startswith("#"):
            break
        out.append(x)
    return tuple(out)


def loc_path(k):
    f = k.split("[")[0].split("#")[0].rstrip(".").split(".")
    if f[0] == "this":
        return (("this",),) + tuple(x for x in f[1:] if x)
    if f[0].startswith("arg") and f[0][3:].isdigit():
        return (("param", f[0]),) + tuple(x for x in f[1:] if x)
    return None


def shortest(ps):
    return tuple(sorted((p for p in ps if not any(p[:n] in ps for n in range(1, len(p)))), key=repr))


def collect(prog, fn, opaque=(), max_depth=8, final_join=True, timeout=None, rw=None):
    absint.Frame.ids.clear()        # names of locals do not depend on what was analysed before
    it = Coll(prog)
    it.opaque = set(opaque) - {fn.qn}
    it.rw = rw or {}
    it.max_depth = max_depth
    it.final_join = final_join
    it.run(fn, args=usual_run(fn))
    retv = it.merge_rets(it.top)
    roots = {}
    retv = name_result(retv, roots)

    def ren(path):
        return (roots[path[0]],) + path[1:] if path[0] in roots else path

    def ok(path):
        return summary.observable(path) or path[0] in roots

    locs = {}

    def put(arr, u):
        u = canon(u)
        locs.setdefault(summary.rpath(ren(arr), {}), []).append(u)

    for k, v in it.store.items():
        if k[0] in ("ver", "cp"):
            continue
        if k[0] == "reg":
            path = k[1:]
            if not ok(path):
                continue
            for u in v:
                if u[0] == "u":
                    put(path, ("u", u[1], ren(u[2]), u[3]))
                elif u[0] == "copy":
                    put(path, ("copy", u[1], u[2]))
                else:
                    put(path, u)
    for k, v in it.store.items():
        if k[0] in ("ver", "cp", "reg") or not ok(k):
            continue
        if isinstance(v, Ref) and v.path == k:
            continue
        put(k[:it._arr(k)], ("u", (), ren(k), v))
    for k, v in it.store.items():
        if k[0] == "cp" and ok(k[1:]):
            if it._arr(k[1:]) < len(k) - 1:
                put(k[1:][:it._arr(k[1:])], ("u", (), ren(k[1:]), Opq("copyof", (cp_term(v),))))
            else:
                put(k[1:], ("copyof", cp_term(v)))
    if retv is not None:
        v = retv
        locs["return"] = [("u", (), (("param", "return"),), simp_val(v))]
    evs = []
    for name, obj, args, (guards, loops) in it.events:
        vs = []
        sub = {}
        for j, (a, lo, hi, st) in enumerate(loops):
            if a is None or lo is None or hi is None:
                vs.append((("rv", j, "?"), Poly.atom(("iters",))))
                continue
            lo = deep(lo, lambda q: sub.get(q)) if sub else lo
            hi = deep(hi, lambda q: sub.get(q)) if sub else hi
            n = hi - lo if abs(st) == 1 else Poly.atom(("cdiv", hi - lo, abs(st)))
            rv = ("rv", j, "ev")
            vs.append((rv, n))
            sub[a] = lo + Poly.atom(rv) * Poly.const(abs(st))
        f = (lambda q: sub.get(q)) if sub else (lambda q: None)
        o = Ref(obj) if isinstance(obj, tuple) else obj
        body = (name, o, tuple(args))
        body = deep(body, f)
        g = and_([deep(c, f) for c in guards])
        evs.append((tuple(vs), g, body))
    return {"locs": locs, "events": evs}


def render(u):
    if u[0] == "u":
        return summary.render_update(u[1], u[2], u[3])
    if u[0] == "map":
        env = {x: "i%d" % i for i, x in enumerate(u[1])}
        return "[%s] = %s" % (",".join(env.values()), summary.rval(u[2], env))
    if u[0] == "all":
        return "[*] = %s" % summary.rval(u[1], {})
    if u[0] == "copy":
        return "[*] = copy %s" % summary.rpath(u[1], {})
    if u[0] == "resized":
        return "[*] = new"
    if u[0] == "copyof":
        return "[*] = copyof %s" % summary.rval(u[1], {})
    if u[0] == "eff":
        return "%s := %s" % (summary.rval(u[1], {}), summary.rval(u[2], {}))
    if u[0] == "ite":
        return "if %s [%s] else [%s]" % (summary.rcond(u[1], {}), "; ".join(render(x) for x in u[2]), "; ".join(render(x) for x in u[3]))
    if u[0] == "acc":
        return "carried"
    return "?" + repr(u[0])


def render_ev(e):
    vs, g, body = e
    return summary.render_update(vs, (("param", "call"),), (Cond(g), body))


def plain_state(st):
    """A sequence of conditional whole-object assignments of resolved values."""
    if not st:
        return False
    for u in st:
        if u[0] == "all":
            if unresolved(u[1]):
                return False
        elif u[0] == "ite":
            if unresolved(u[1]) or not all(not b or plain_state(b) for b in u[2:4]):
                return False
        else:
            return False
    return True


def unresolved(x):
    """Number of places where the summary lost precision."""
    n = 0
    stack = [x]
    seen = set()
    while stack:
        y = stack.pop()
        if isinstance(y, Poly):
            if id(y) in seen:
                continue
            seen.add(id(y))
            stack.extend(y.atoms())
        elif isinstance(y, tuple):
            if len(y) > 1:
                if id(y) in seen:
                    continue
                seen.add(id(y))
            if y and y[0] == "eff" and len(y) == 3 and not (isinstance(y[2], tuple) and y[2] and y[2][0] == "rw"):
                n += 1
            if y and y[0] == "u" and len(y) in (2, 3) and isinstance(y[1], str):
                n += 1
            elif y and y[0] in ("lv", "acc", "iters"):
                n += 1
            elif y and y[0] == "ld" and len(y) == 3:
                v = y[2]
                if isinstance(v, tuple) and len(v) == 2 and v[0] == "st" and plain_state(STATES.get(v[1])):
                    pass        # set as a whole, or not, under a known condition
                elif v not in (0, None) and not (isinstance(v, tuple) and v and v[0] in ("new", "car")):
                    n += 1
                if y[1][0][0] == "loc" if isinstance(y[1], tuple) and isinstance(y[1][0], tuple) else False:
                    n += 1
                stack.append(y[1])
            else:
                stack.extend(y)
        elif hasattr(y, "parts"):
            stack.extend(y.parts())
    return n


def encode(s):
    e = Enc()
    r = {"locs": {k: [e.e(u) for u in v] for k, v in s["locs"].items()}, "events": [e.e(x) for x in s["events"]], "t": e.t}
    st = r["st"] = {}
    while e.need - set(st):
        for d in sorted(e.need - set(st)):
            st[d] = [e.e(u) for u in STATES.get(d, ())]
    return r


def decode(j):
    d = Dec(j["t"])
    for k, v in j.get("st", {}).items():
        if k not in STATES:
            STATES[k] = tuple(d.d(u) for u in v)
    return {"locs": {k: [d.d(u) for u in v] for k, v in j["locs"].items()}, "events": [d.d(x) for x in j["events"]]}


def int_pred(prog, fn):
    """Which loads are integer valued."""
    ints, reals, bools, nonb = set(), set(), set(), set()
    for r in prog.records.values():
        for f in r["fields"]:
            t = strip_ty(f["ty"])
            isb = t == "bool"
            isint = t in ("int", "bool", "long", "unsigned long", "unsigned int") or "<int" in t or "VectorXi" in t or "Matrix<int" in t or t in prog.enums
            (ints if isint else reals).add(f["n"])
            (bools if isb else nonb).add(f["n"])
    only = ints - reals
    bools -= nonb
    params = {}
    for i, p in enumerate(fn.params):
        t = strip_ty(fn.types[p["t"]])
        params["arg%d" % i] = "bool" if t == "bool" else t in ("int", "bool", "long", "unsigned long", "unsigned int") or "<int" in t or "Matrix<int" in t or t in prog.enums

    def f(path):
        for x in reversed(path):
            if isinstance(x, str):
                return "bool" if x in bools else x in only or x in ("#size", "#rows", "#cols")
            if isinstance(x, tuple) and x and x[0] == "param":
                return params.get(x[1], False)
        return False

    return f


class Diff:
    def __init__(self, kind, loc, ref, cur, note=""):
        self.kind = kind      # "differs", "missing", "extra", "undecided"
        self.loc = loc
        self.ref = ref
        self.cur = cur
        self.note = note


_SIZE = {}


def tree_size(x):
    """Size of x written out in full, up to a cap."""
    if not isinstance(x, (Poly, tuple, list)) and not hasattr(x, "parts"):
        return 1
    m = _SIZE.get(id(x))
    if m is None or m[0] is not x:
        ch = x.atoms() if isinstance(x, Poly) else x if isinstance(x, (tuple, list)) else x.parts()
        m = _SIZE[id(x)] = (x, min(10 ** 9, 1 + sum(map(tree_size, ch))))
    return m[1]


def texts(us, f):
    """The updates as text; very large ones only by name."""
    return [f(u) if tree_size(u) < 200000 else "(%s, %d nodes)" % (u[0] if isinstance(u[0], str) else "call", tree_size(u)) for u in us]


def same_text(a, b, f=None):
    f = f or render
    if len(a) != len(b):
        return False
    if sorted(map(id, a)) == sorted(map(id, b)):
        return True
    if max(map(tree_size, list(a) + list(b)), default=0) >= 200000:
        return False
    return sorted(map(f, a)) == sorted(map(f, b))


def compare(prog, fn, ref, cur, known_members, end=None):
    """Compare decoded reference and current summaries. Returns (n_equal_text, n_equal_semantic, [Diff])."""
    is_int = int_pred(prog, fn)
    end = end or time.time() + 200
    nt = ns = 0
    diffs = []
    todo = []
    for k, ru in ref["locs"].items():
        cu = cur["locs"].get(k)
        if cu is None:
            # element-wise: an update that writes back the entry value is no update
            if is_noop(ru, is_int, end):
                nt += 1
                continue
            par = k
            lost = False
            while "." in par:
                par = par.rsplit(".", 1)[0]
                if any(u[0] == "eff" for u in cur["locs"].get(par, [])):
                    lost = True
            if k.startswith("result") and all(u[0] == "copyof" for u in ru):
                lost = True
            diffs.append(Diff("undecided" if lost else "missing", k, texts(ru, render), []))
        elif same_text(ru, cu):
            nt += 1
        else:
            todo.append((sum(map(tree_size, ru)) + sum(map(tree_size, cu)), k, ru, cu))
    todo.sort(key=lambda x: x[:2])
    found = any(d.kind == "missing" for d in diffs)
    later = []
    for n, k, ru, cu in todo:       # a difference any interpretation shows
        r = quick(ru, cu, is_int, min(end, time.time() + 10))
        if r is False:
            worse = sum(map(unresolved, cu)) > sum(map(unresolved, ru))
            diffs.append(Diff("undecided" if worse else "differs", k, texts(ru, render), texts(cu, render)))
            found = found or not worse
        else:
            later.append((k, ru, cu, r))
    for i, (k, ru, cu, q) in enumerate(later):      # one that takes a particular case
        if found and i >= 3:
            ns += 1
            continue
        left = end - time.time()
        r = same_updates(ru, cu, is_int, end=time.time() + max(min(left, 3), left / (len(later) - i))) if left > 0 else (True if q >= 3 else None)
        if r:
            ns += 1
            continue
        worse = sum(map(unresolved, cu)) > sum(map(unresolved, ru))
        diffs.append(Diff("undecided" if worse or r is None else "differs", k, texts(ru, render), texts(cu, render)))
        found = found or diffs[-1].kind == "differs"
    for k, cu in cur["locs"].items():
        if k in ref["locs"] or k == "return":
            continue
        f = k.split("[")[0].split(".")
        if not all(x in known_members or x == "this" or x.startswith("result") or x.startswith("arg") for x in f):
            continue
        if k.startswith("result") and all(u[0] == "copyof" for u in cu):
            continue
        if sum(map(unresolved, cu)) or k.endswith(("#size", "#rows", "#cols")) or is_noop(cu, is_int, end):
            continue
        diffs.append(Diff("extra", k, [], texts(cu, render)))
    re_, ce = ref["events"], cur["events"]
    if same_text(re_, ce, render_ev):
        nt += len(re_)
    else:
        tag = lambda e: render_ev(e) if tree_size(e) < 200000 else id(e)
        cts = {}
        for e in ce:
            cts.setdefault(tag(e), []).append(e)
        left = []
        for e in re_:
            t = tag(e)
            if cts.get(t):
                cts[t].pop()
                nt += 1
            else:
                left.append(e)
        cleft = [e for v in cts.values() for e in v]
        for e in list(left):
            for c in cleft:
                if c[2][0] == e[2][0] and same_updates([ev_update(e)], [ev_update(c)], is_int, end=max(end, time.time() + 2)):
                    cleft.remove(c)
                    left.remove(e)
                    ns += 1
                    break
        for e in left:
            same = [c for c in cleft if c[2][0] == e[2][0]]
            mates = [x for x in left if x[2][0] == e[2][0]]
            worse = same and sum(map(unresolved, same)) > sum(map(unresolved, mates))
            diffs.append(Diff("undecided" if worse else "differs" if same else "missing", "call " + e[2][0], texts([e], render_ev), texts(same, render_ev)))
        refnames = {e[2][0] for e in re_}
        nl = lambda es: sum(1 for e in es if e[2][0] == "iteration")
        wl = lambda es: sorted(len(e[2][2][0]) for e in es if e[2][0] == "iteration" and len(e[2]) > 2 and e[2][2])
        if nl(re_) != nl(ce) or wl(re_) != wl(ce):
            for d in diffs:
                if d.loc == "call iteration":
                    d.kind = "undecided"
        for c in cleft:
            if c[2][0] in ("iteration", "check"):
                continue
            if c[2][0] == "text" and "text" not in refnames:
                continue
            if not any(e[2][0] == c[2][0] for e in left):
                diffs.append(Diff("undecided" if unresolved(c) else "extra", "call " + c[2][0], [], texts([c], render_ev)))
    return nt, ns, diffs


def ev_update(e):
    vs, g, body = e
    return ("u", vs, (("param", "call"),) + (("[]",) + tuple(Poly.atom(v) for v, _ in vs),), ("sel", g, body, "none"))


def is_noop(us, is_int, end=None):
    try:
        return same_updates(us, [], is_int, 40, end=end) is True
    except Exception:
        return False


def fkey(fn, prog):
    same = sorted(f.key for f in prog.by_qn.get(fn.qn, []) if f.body is not None)
    if len(same) > 1:
        return "%s/%d#%d" % (fn.qn, len(fn.params), same.index(fn.key))
    return fn.qn
