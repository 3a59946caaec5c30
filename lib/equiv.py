"""Equality of effect summaries.

Two summaries are equal when they denote the same final value for every
location.  Equality is decided on the normal forms; when the forms differ
syntactically, by polynomial identity testing: both are evaluated in the prime
field Z_p under the same random interpretation of their atoms (entry values,
uninterpreted functions, truth of real-valued comparisons), with integer
quantities (extents, mode numbers, flags) drawn from small ranges so that index
domains are enumerated completely.  Nothing of the analysed program is executed.
"""
import hashlib
import math
import time

from absint import Cond, ListV, Obj, Opq, Ptr, Ref, STATES, Str
from sym import Poly

P = (1 << 61) - 1
INF = float("inf")


def spread(v):
    """A real number drawn from the residue v: either sign, magnitudes from 1e-9 to 1e6."""
    r = v ^ (v >> 29)
    u = (r >> 8 & 0xfffff) / float(1 << 20)
    x = 0.05 + 2.5 * u if r & 2 else 10.0 ** (15 * u - 9)
    return x if r & 1 else -x


class M:
    """A real-valued quantity: its residue mod P decides equality, an approximation decides order."""
    __slots__ = ("v", "f")

    def __init__(self, v, f=None):
        self.v = v % P
        if f is None or f != f or f in (INF, -INF):
            f = spread(self.v)
        self.f = f

    def __eq__(self, o):
        return isinstance(o, M) and o.v == self.v

    def __hash__(self):
        return hash(("M", self.v))

    def __repr__(self):
        return "M%d" % self.v


CAP = 48        # longest index range that is enumerated
REAL = {n: getattr(math, n) for n in ("sqrt", "exp", "log", "log10", "sin", "cos", "tan", "asin", "acos", "atan", "atan2", "pow", "sinh", "cosh", "tanh", "hypot", "ceil", "floor", "expm1", "log1p", "cbrt", "fmod")}


FIXED = ("ite", "bool", "sum", "max", "min", "idiv", "mod", "cdiv", "inv", "mul", "rv", "bv", "lv", "fn", "size", "rows", "cols")


class Budget(Exception):
    pass


_FV = {}
W = ("bv", "#w")        # which pass of a loop: values carried by loops depend on it
_WS = frozenset((W,))


def fv(x):
    """Bound variables and ranges occurring in x (array states included), kept per object."""
    if isinstance(x, tuple):
        if not x:
            return frozenset()
        if x[0] in ("bv", "rv") and len(x) in (2, 3):
            return frozenset((x,))
        if x[0] == "acc" and len(x) in (2, 3):
            return _WS
    elif not isinstance(x, Poly) and not hasattr(x, "parts"):
        return frozenset()
    m = _FV.get(id(x))
    if m is not None and m[0] is x:
        return m[1]
    if isinstance(x, Poly):
        ch = x.atoms()
    elif isinstance(x, tuple):
        ch = x
        if len(x) == 2 and x[0] == "st" and isinstance(x[1], str):
            ch = STATES.get(x[1], ())
    else:
        ch = x.parts()
    r = frozenset()
    for y in ch:
        f = fv(y)
        if f and not f <= r:
            r |= f
    if len(_FV) > 3000000:
        _FV.clear()
    _FV[id(x)] = (x, r)
    return r


_BH = {}


def height(x):
    m = _BH.get(id(x))
    if m is None or m[0] is not x:
        from sym import bvheight
        if len(_BH) > 1000000:
            _BH.clear()
        m = _BH[id(x)] = (x, bvheight(x))
    return m[1]


class Ev:
    def __init__(self, seed, is_int, budget=400000, deadline=None):
        self.deadline = deadline
        self.cache = {}
        self.seed = seed
        self.is_int = is_int
        self.env = {}
        self.memo = {}
        self.budget = budget
        self.memo_env = None
        self.states = {}
        self.busy = set()
        self.salt = {}
        self.trace = None
        self.inside = False
        self.force = {}
        self.fix = {}
        self.pool = ()

    def key(self, x):
        f = fv(x)
        if not f or not self.env:
            return id(x)
        e = self.env
        return (id(x),) + tuple((v, e[v]) for v in sorted(f & e.keys(), key=repr))

    def kept(self, x, f):
        """f(x), computed once per object and values of the bound variables in it."""
        k = self.key(x)
        m = self.cache.get(k)
        if m is None:
            m = self.cache[k] = (x, f(x))
        return m[1]

    def hs(self, *x):
        """Random value of an atom; the salt lets steer() draw it again."""
        if self.trace is not None:
            self.trace.pop(x, None)
            self.trace[x] = None
        n = self.salt.get(x)
        return self.h(*x) if n is None else self.h("salt", n, *x)

    def h(self, *x):
        d = hashlib.blake2b(repr((self.seed,) + x).encode(), digest_size=8).digest()
        return int.from_bytes(d, "big") % P

    # -- numbers
    def poly(self, p):
        if len(p.t) < 2 and (not p.t or () in p.t):
            return self.poly1(p)
        return self.kept(p, self.poly1)

    def poly1(self, p):
        self.budget -= 1
        if self.budget < 0 or self.deadline is not None and not self.budget & 127 and time.time() > self.deadline:
            raise Budget()
        tot, exact = 0, True
        terms = []
        for m, c in p.t.items():
            vs = [(self.atom(a), k) for a, k in m]
            terms.append((c, vs))
        for c, vs in terms:
            if c.denominator != 1 or any(isinstance(v, M) or k < 0 for v, k in vs):
                exact = False
        if exact:
            for c, vs in terms:
                t = c.numerator
                for v, k in vs:
                    t *= v ** k
                tot += t
            return tot
        approx = 0.0
        for c, vs in terms:
            t = c.numerator % P * pow(c.denominator % P, P - 2, P) % P
            f = 0.0
            try:
                f = float(c)
                for v, k in vs:
                    f *= (v.f if isinstance(v, M) else float(v)) ** k
            except (ZeroDivisionError, OverflowError):
                f = INF
            for v, k in vs:
                n = v.v if isinstance(v, M) else v % P
                if k < 0:
                    n = pow(n, P - 2, P)
                    k = -k
                t = t * pow(n, k, P) % P
            tot = (tot + t) % P
            approx += f
        return M(tot, approx)

    def small(self, name, *key):
        r = self.hs("int", *key) >> 3
        if self.pool and self.salt.get(("int",) + key) and r % 3:
            c = self.pool[r // 3 % len(self.pool)]
            if c >= 0 or name not in ("size", "rows", "cols"):
                return c
        n = str(name).lower()
        if "min" in n:
            return r % 2
        if "max" in n or n in ("ns",):
            return 3 + r % 4
        return r % 5 + (1 if r % 7 else 0)

    def atom(self, a):
        k = a[0]
        if k in ("rv", "bv", "lv") and a in self.env:
            return self.env[a]
        if k == "ld":
            p = self.path(a[1])
            v = a[2] if not isinstance(a[2], tuple) else self.val(a[2])
            if isinstance(a[2], tuple) and a[2] and a[2][0] == "st" and isinstance(v, tuple) and v and v[0] == "state":
                r = self.state_at(a[1], p, a[2][1])
                if r is not None:
                    return r
            ii = self.is_int(a[1])
            if ii == "bool":
                return self.hs("bool", p, v) >> 7 & 1
            if ii:
                last = next((x for x in reversed(a[1]) if isinstance(x, str)), a[1][0])
                return self.small(last, p, v)
            return self.draw("ld", p, v)
        if k in ("size", "rows", "cols"):
            return self.small(k, k, self.val(a[1:]))
        if k == "ite":
            return self.poly(a[2]) if self.cond(a[1]) else self.poly(a[3])
        if k == "bool":
            return int(self.cond(a[1]))
        if k == "sum":
            n = self.poly(a[1])
            b = self.binder(a[2])
            if isinstance(n, M) or b is None:
                return M(self.h("sum", n, self.samples(a[2], (b,) if b else ())))
            tot, approx = 0, 0.0
            exact = True
            if n > CAP:
                raise Budget()
            for i in range(max(0, n)):
                x = self.under({b: i}, lambda: self.poly(a[2]))
                if isinstance(x, M):
                    exact = False
                    tot = (tot + x.v) % P
                    approx += x.f
                else:
                    tot += x
                    approx += x
            return tot if exact else M(tot, approx)
        if k in ("max", "min"):
            vs = [self.poly(x) for x in a[1:]]
            if all(not isinstance(v, M) for v in vs):
                return max(vs) if k == "max" else min(vs)
            return (max if k == "max" else min)(vs, key=lambda v: v.f if isinstance(v, M) else v)
        if k in ("idiv", "mod", "cdiv"):
            vs = [self.poly(x) if isinstance(x, Poly) else x for x in a[1:]]
            if all(not isinstance(v, M) for v in vs) and vs[1]:
                x, y = vs
                q = abs(x) // abs(y)
                q = q if (x >= 0) == (y >= 0) else -q
                if k == "idiv":
                    return q
                if k == "mod":
                    return x - q * y
                return -((-x) // y)
            return M(self.h(k, tuple(vs)))
        if k == "inv":
            v = self.poly(a[1])
            n = self.res(v)
            return M(pow(n, P - 2, P), 1 / v.f if isinstance(v, M) and v.f else None) if n else M(self.h("inv0"))
        if k == "mul":
            return M(self.res(self.poly(a[1])) * self.res(self.poly(a[2])))
        if k == "acc":
            return self.draw("acc", repr(self.env.get(W)), self.under({W: 0}, lambda: self.val(a[1:])))
        if k in ("rv", "bv", "lv"):
            if k == "bv" and not isinstance(a[1], int):
                return M(self.h("bv", str(a[1])))
            return M(self.h(*map(str, a)))
        if k == "fn":
            vs = tuple(self.poly(x) if isinstance(x, Poly) else self.val(x) for x in a[2:])
            n = a[1]
            if n == "abs" and not isinstance(vs[0], M):
                return abs(vs[0])
            if n == "abs":
                s = self.sign(vs[0])
                return vs[0] if s >= 0 else M(-vs[0].v, -vs[0].f)
            if n == "int" and not isinstance(vs[0], M):
                return vs[0]
            vs = tuple(M(v, float(v)) if isinstance(v, int) else v for v in vs)
            f = None
            if n in REAL and all(isinstance(v, M) for v in vs):
                try:
                    f = REAL[n](*[v.f for v in vs])
                except (ValueError, OverflowError, TypeError, ZeroDivisionError):
                    pass
            return M(self.h("fn", n, vs), f)
        # anything else: uninterpreted in its (sampled) components
        w = None
        if not self.inside and W in self.env and W in fv(a):
            w = self.env.pop(W)
        bs = self.free_binders(a)
        old, self.inside = self.inside, self.inside or W in bs
        try:
            return self.draw(k, self.h(self.samples(a[1:], bs)))
        finally:
            self.inside = old
            if w is not None:
                self.env[W] = w

    def res(self, v):
        return v.v if isinstance(v, M) else v % P

    def under(self, b, f):
        old = {k: self.env.get(k) for k in b}
        self.env.update(b)
        try:
            return f()
        finally:
            for k, v in old.items():
                if v is None:
                    self.env.pop(k, None)
                else:
                    self.env[k] = v

    def binder(self, body):
        h = height(body)
        return ("bv", h) if h else None

    def free_binders(self, a):
        return sorted((y for y in fv(a) if y[0] == "bv" and len(y) == 2 and y not in self.env), key=repr)

    def samples(self, x, bs):
        if not bs:
            return self.val(x)
        out = []
        for j in range(5):
            b = {}
            for y in bs:
                if y[1] in ("i", "#w") or isinstance(y[1], int):
                    b[y] = j
                else:
                    b[y] = M(self.h("smp", str(y), j))
            out.append(self.under(b, lambda: self.val(x)))
        return tuple(out)

    def sign(self, d):
        if not isinstance(d, M):
            return (d > 0) - (d < 0)
        if d.v == 0:
            return 0
        f = d.f or spread(d.v)
        return 1 if f > 0 else -1

    def draw(self, *key):
        """Value of a real atom."""
        f = self.fix.get(key)
        if f is not None:
            if self.trace is not None:
                self.trace[key] = None
            return f
        return M(self.hs(*key))

    def vanish(self, p, r):
        """Give one atom of p the value that makes p zero."""
        c = sorted((m for m in p.t if len(m) == 1 and m[0][1] == 1 and m[0][0][0] not in FIXED), key=lambda m: str(m[0][0][:2])[:200])
        if not c:
            return
        m = c[self.h("zero", r) % len(c)]
        a = m[0][0]
        self.cache = {}
        self.states = {}
        self.trace = {}
        if not isinstance(self.atom(a), M):
            self.trace = None
            return
        tr, self.trace = self.trace, None
        key = next(reversed(tr), None)
        if key is None or key[0] != a[0]:
            return
        rest = self.poly(Poly({n: w for n, w in p.t.items() if n != m}))
        w = p.t[m]
        if not isinstance(rest, M):
            rest = M(rest, float(rest))
        inv = pow(w.numerator % P, P - 2, P) * (w.denominator % P) % P
        self.fix[key] = M(-rest.v * inv, -rest.f / float(w))

    def exact_sign(self, p):
        """Sign of a polynomial with fractional coefficients over integer atoms."""
        if all(c.denominator == 1 for c in p.t.values()):
            return None
        tot = 0
        for m, c in p.t.items():
            t = c
            for a, k in m:
                v = self.atom(a)
                if isinstance(v, M) or k < 0:
                    return None
                t = t * v ** k
            tot += t
        return (tot > 0) - (tot < 0)

    def fresh(self, c):
        self.cache = {}
        self.states = {}
        return self.cond(c)

    def blame(self, c, want, r):
        """An elementary condition to change, and to what, so that c comes closer to want."""
        for n in range(60):
            k = c[0]
            if k == "not":
                c, want = c[1], not want
                continue
            if k in ("and", "or"):
                off = [x for x in c[1] if self.cond(x) != want]
                if not off:
                    return None
                c = off[self.h("blame", r, n) % len(off)]
                continue
            return c, want
        return None

    def steer(self, goals, rounds=300):
        """Redraw atoms until every (condition, truth) goal holds; False when not reached."""
        uses = {}
        if len(goals) > 6:
            for g in goals:
                self.trace = {}
                self.fresh(g[0])
                tr, self.trace = self.trace, None
                for k in tr or ():
                    uses[k] = uses.get(k, 0) + 1
        for r in range(rounds):
            if self.deadline is not None and time.time() > self.deadline:
                raise Budget()
            self.budget = max(self.budget, 200000)
            self.cache = {}
            self.states = {}
            bad = [g for g in goals if self.cond(g[0]) != g[1]]
            if not bad:
                return True
            leaf = self.blame(*(bad[0] if r % 2 else bad[self.h("goal", r) % len(bad)]), r)
            if leaf is None:
                return False
            self.trace = {}
            self.fresh(leaf[0])
            tr, self.trace = self.trace, None
            if not tr:
                continue
            last = next(reversed(tr))
            ks = sorted(tr, key=repr)
            if uses and r % 6:
                # rather what few other goals depend on
                last = min(ks, key=lambda k: (uses.get(k, 0), self.h("own", r, repr(k))))
            for t in range(8):
                k = ks[self.h("pick", r, t) % len(ks)]
                if t < 4:
                    k = last
                c, want = leaf
                if c[0] == "cmp" and t % 2 == 0 and want == (c[1] in ("==", "<=")):
                    if c[1] in ("==", "!=") or self.h("try0", r, t) % 3 == 0:
                        self.vanish(c[2], r + t)
                        if self.fresh(c) == want:
                            break
                self.fix.pop(k, None)
                self.salt[k] = self.salt.get(k, 0) + 1
                if self.fresh(leaf[0]) == leaf[1]:
                    break
        return False

    def cond(self, c):
        if self.force:
            f = self.force.get(id(c))
            if f is not None:
                return f[1]
        k = c[0]
        if k == "true":
            return True
        if k == "false":
            return False
        if k == "not":
            return not self.cond(c[1])
        if k in ("and", "or"):
            return self.kept(c, self.cond_list)
        if k == "cmp":
            s = self.exact_sign(c[2])
            if s is None:
                s = self.sign(self.poly(c[2]))
            return {"<": s < 0, "<=": s <= 0, "==": s == 0, "!=": s != 0}[c[1]]
        a = c[1]
        if isinstance(a, tuple) and a and isinstance(a[0], str):
            v = self.atom(a)
        else:
            v = M(self.h("b", self.val(a)))
        if isinstance(v, M):
            return bool(self.hs("truth", v.v) & 1)
        return v != 0

    def cond_list(self, c):
        if c[0] == "and":
            return all(self.cond(x) for x in c[1])
        return any(self.cond(x) for x in c[1])

    # -- other values
    def val(self, x):
        if isinstance(x, (Opq, Obj, ListV)):
            return self.kept(x, self.val1)
        return self.val1(x)

    def brief(self, v):
        """A value of bounded size standing for v."""
        return (v[0], self.h(v)) if len(v) > 2 else v

    def val1(self, x):
        if isinstance(x, Poly):
            v = self.poly(x)
            return M(v, float(v)) if isinstance(v, int) else v
        if isinstance(x, Cond):
            return ("B", self.cond(x.c))
        if isinstance(x, Str):
            return ("S", x.s)
        if isinstance(x, Ref):
            return ("R", self.path(x.path))
        if isinstance(x, Ptr):
            return ("P", self.path(x.path), self.val(x.off) if x.off is not None else None)
        if isinstance(x, ListV):
            return self.brief(("L",) + tuple(self.val(y) for y in x.items))
        if isinstance(x, Obj):
            return self.brief(("O",) + tuple((k, self.val(v)) for k, v in sorted(x.f.items())))
        if isinstance(x, Opq) and x.name == "phi" and len(x.args) == 3 and isinstance(x.args[0], Cond):
            return self.val(x.args[1]) if self.cond(x.args[0].c) else self.val(x.args[2])
        if isinstance(x, Opq):
            return self.brief(("Q", x.name) + tuple(self.val(y) for y in x.args))
        if isinstance(x, tuple):
            if x and x[0] in ("cmp", "and", "or", "not", "true", "false", "b") and isinstance(x[0], str):
                try:
                    return ("B", self.cond(x))
                except (TypeError, IndexError, KeyError):
                    pass
            if len(x) == 2 and x[0] == "st" and isinstance(x[1], str):
                return ("state", self.state_key(x[1]))
            if len(x) in (2, 3) and x[0] == "u" and isinstance(x[1], str):
                return ("u", x[1].rstrip("0123456789")) + tuple(self.val(y) for y in x[2:])
            if x and x[0] == "sel":
                return self.val(x[2]) if self.cond(x[1]) else self.val(x[3])
            return tuple(self.val(y) for y in x)
        return x

    def path(self, p):
        out = []
        for x in p:
            if isinstance(x, tuple) and x and x[0] == "[]":
                out.append(("[]",) + tuple(self.num_index(y) for y in x[1:]))
            elif isinstance(x, tuple) and x and x[0] == "loc":
                out.append("$")
            elif isinstance(x, tuple):
                out.append(self.val(x))
            else:
                out.append(x)
        return tuple(out)

    def num_index(self, y):
        if isinstance(y, Poly):
            return self.poly(y)
        return self.val(y)

    # -- array states
    def state(self, d):
        st = STATES.get(d)
        if d in self.busy or st is None:
            return ("digest", d), {}
        e = self.env
        k = (d,) + tuple((v, e[v]) for v in sorted(fv(st) & e.keys(), key=repr) if v[0] != "rv")
        if k not in self.states:
            self.busy.add(d)
            env, self.env = self.env, {a: v for a, v in self.env.items() if a[0] != "rv"}
            try:
                self.states[k] = self.final(st)
            finally:
                self.env = env
                self.busy.discard(d)
            b, m = self.states[k]
            self.memo[k] = self.h("state", repr(b), tuple(sorted((repr(p[1:]), repr(x[0])) for p, x in m.items())))
        return self.states[k] + (self.memo[k],)

    def state_key(self, d):
        r = self.state(d)
        return r[2] if len(r) > 2 else self.h("state", repr(r[0]), ())

    def state_at(self, raw, p, d):
        m = self.state(d)[1]
        if p in m:
            v = m[p][0]
            if isinstance(v, (M, int)):
                return v
            return M(self.h("val", repr(v)))
        return None

    # -- updates
    def final(self, ups, base=None, d=None):
        d = {} if d is None else d
        for u in ups:
            if u[0] == "u":
                self.expand(list(u[1]), u[2], u[3], d)
            elif u[0] == "ite":
                base, d = self.final(u[2] if self.cond(u[1]) else u[3], base, d)
            elif u[0] == "eff":
                prev = self.h("prev", repr(base), tuple(sorted((repr(p[1:]), repr(x[0])) for p, x in d.items())))
                base, d = ("eff", self.path(u[1]) if u[1] else (), self.val(u[2]), prev), {}
            elif u[0] == "copyof":
                base = ("copyof", self.val(u[1]), base)
            elif u[0] == "all":
                base, d = ("all", self.val(u[1])), {}
            elif u[0] == "map":
                bs = list(u[1])
                out = []
                for j in range(3):
                    out.append(self.under({b: j for b in bs}, lambda: self.val(u[2])))
                base, d = ("map", tuple(out)), {}
            elif u[0] == "copy":
                base, d = ("copy", self.path(u[1]), self.val(tuple(u[2:]) if len(u) > 2 and False else ())), {}
            else:
                base, d = (u[0],) + tuple(self.val(x) for x in u[1:]), {}
        return base, d

    def expand(self, vs, path, val, d):
        if not vs:
            p = self.path(path)
            d[p] = (self.val(val), path)
            return
        (rv, n) = vs[0]
        m = self.poly(n)
        if isinstance(m, M):
            # unknown extent: keep one generic element
            def go():
                self.expand(vs[1:], path, val, d)
            self.under({rv: M(self.h("ext", m.v))}, go)
            return
        if m > CAP:
            raise Budget()
        for i in range(max(m, 0)):
            self.under({rv: i}, lambda: self.expand(vs[1:], path, val, d))

    def orig(self, base, p):
        if base is not None and base[0] == "all":
            return base[1]
        if base is None:
            return self.draw("ld", p, 0), self.small(next((x for x in reversed(p) if isinstance(x, str)), ""), p, 0)
        return ("base", base, p)

    def same(self, a, b):
        ba, da = self.final(a)
        bb, db = self.final(b)
        if ba != bb:
            return False
        for p in set(da) | set(db):
            x = da[p][0] if p in da else self.orig(ba, p)
            y = db[p][0] if p in db else self.orig(bb, p)
            if isinstance(x, tuple) and len(x) == 2 and isinstance(x[0], M):
                if not (y == x[0] or y == M(x[1])):
                    return False
            elif isinstance(y, tuple) and len(y) == 2 and isinstance(y[0], M):
                if not (x == y[0] or x == M(y[1])):
                    return False
            elif x != y:
                return False
        return True


def chain(x, out=None):
    """Conditions of a value that is decided case by case (a chain of early returns)."""
    out = [] if out is None else out
    for _ in range(400):
        if isinstance(x, Opq) and x.name == "phi" and len(x.args) == 3 and isinstance(x.args[0], Cond):
            out.append(x.args[0].c)
            if isinstance(x.args[1], Opq) and x.args[1].name == "phi":
                chain(x.args[1], out)
            x = x.args[2]
        elif isinstance(x, Poly) and len(x.t) == 1:
            (m, c), = x.t.items()
            if len(m) == 1 and m[0][1] == 1 and m[0][0][0] == "ite":
                out.append(m[0][0][1])
                x = m[0][0][3]
            else:
                break
        else:
            break
    return out


def goal_sets(a, b):
    ca, cb = [], []
    for us, o in ((a, ca), (b, cb)):
        for u in us:
            if u[0] == "u" and not u[1]:
                chain(u[3], o)
    if len(ca) < 2 and len(cb) < 2:
        return []
    sa, sb = set(ca), set(cb)
    com = [c for c in ca if c in sb]
    odd = [c for c in ca if c not in sb] + [c for c in cb if c not in sa]
    first = []
    for c in ca:
        if c not in sb:
            break
        first.append(c)
    out = [[(c, False) for c in com], [(c, False) for c in first]]
    for o in odd[:8]:
        out.append([(c, False) for c in com] + [(o, True)])
        out.append([(c, False) for c in com] + [(o, False)])
        out.append([(c, False) for c in com] + [(x, False) for x in odd if x != o] + [(o, True)])
    return out


def leaves(x):
    """Elementary conditions occurring anywhere in x, array states included."""
    out = {}
    stack = [x]
    seen = set()
    while stack:
        y = stack.pop()
        if isinstance(y, Poly):
            if id(y) in seen:
                continue
            seen.add(id(y))
            stack.extend(y.atoms())
        elif isinstance(y, Cond):
            stack.append(y.c)
        elif isinstance(y, (tuple, list)):
            if isinstance(y, tuple) and y:
                if id(y) in seen:
                    continue
                seen.add(id(y))
                if len(y) == 3 and y[0] == "cmp" and isinstance(y[2], Poly):
                    out[y] = None
                elif len(y) == 2 and y[0] == "b" and isinstance(y[1], tuple):
                    out[y] = None
                elif len(y) == 2 and y[0] == "st" and isinstance(y[1], str):
                    stack.append(STATES.get(y[1], ()))
                    continue
            stack.extend(y)
        elif hasattr(y, "parts"):
            stack.extend(y.parts())
    return out


def negated(c):
    if c[0] == "cmp" and c[1] in ("==", "!="):
        return ("cmp", "!=" if c[1] == "==" else "==", c[2])
    if c[0] == "cmp":
        return ("cmp", "<" if c[1] == "<=" else "<=", -c[2])
    return c


def mentioned(cs):
    """Integers at which the given elementary conditions change, and their neighbours."""
    pool = set()
    for c in cs:
        if c[0] != "cmp":
            continue
        k = c[2].t.get((), 0)
        for m, w in c[2].t.items():
            q = -k / w if m else 0
            if q and q.denominator == 1 and abs(q) <= 1000:
                pool |= {abs(q.numerator) + d for d in (-1, 0, 1)}
                if q < 0 and c[1] in ("==", "!="):
                    pool.add(q.numerator)
    return pool


def odd_conditions(a, b):
    """Elementary conditions that only one of the two summaries tests, and the integers they mention."""
    la, lb = leaves(a), leaves(b)
    odd = [c for c in la if c not in lb and negated(c) not in lb] + [c for c in lb if c not in la and negated(c) not in la]
    return odd[:10], tuple(sorted(mentioned(odd)))


def bound(c):
    return fv(c)


def odd_cases(a, b, is_int, end):
    """False when an interpretation that decides a condition of one side only tells the two apart."""
    odd, pool = odd_conditions(a, b)
    for seed in range(6):
        for c in odd:
            bs = bound(c)
            for want in (True, False):
                if time.time() > end:
                    return True
                try:
                    e = Ev(2000 + seed, is_int, deadline=end)
                    e.pool = pool
                    e.env = {x: (seed + j) % 3 for j, x in enumerate(sorted(bs, key=repr))}
                    if not e.steer([(c, want)], 60):
                        continue
                    e.env = {}
                    e.states = {}
                    e.cache = {}
                    if not e.same(a, b):
                        return False
                except (Budget, RecursionError):
                    pass
    return True


def diff_paths(a, b, limit=24):
    """Where two summaries part, as the conditions under which each such place counts."""
    out = []
    stack = [(a, b, ())]
    seen = set()
    hold = []

    def split(c, d, g):
        for w in ((True, False), (False, True)):
            out.append(g + ((c, w[0]), (d, w[1])))

    def branches(c, d, x, y, g):
        if c is d or c == d:
            stack.append((x[1], y[1], g + ((c, False),)))
            stack.append((x[0], y[0], g + ((c, True),)))
        else:
            split(c, d, g)
            stack.append((x[1], y[1], g + ((c, False), (d, False))))
            stack.append((x[0], y[0], g + ((c, True), (d, True))))

    while stack and len(out) < limit:
        x, y, g = stack.pop()
        if x is y or (id(x), id(y)) in seen:
            continue
        seen.add((id(x), id(y)))
        hold.append((x, y))
        if len(seen) > 20000:
            break
        if isinstance(x, Poly) and isinstance(y, Poly):
            ux = sorted((m for m in x.t if y.t.get(m) != x.t[m]), key=len)
            uy = sorted((m for m in y.t if x.t.get(m) != y.t[m]), key=len)
            if len(ux) != len(uy):
                out.append(g)
                for m in ux + uy:
                    for k, _ in m:
                        if k[0] == "ite":
                            out.append(g + ((k[1], True),))
                            out.append(g + ((k[1], False),))
                continue
            for m, n in zip(ux, uy):
                am = [k for k, _ in m if not any(k is z for z, _ in n)]
                an = [k for k, _ in n if not any(k is z for z, _ in m)]
                am.sort(key=lambda k: str(k[0]))
                an.sort(key=lambda k: str(k[0]))
                if len(am) != len(an) or not am:
                    out.append(g)
                else:
                    stack.extend((p, q, g) for p, q in zip(am, an))
            if not ux:
                out.append(g)
        elif isinstance(x, Cond) and isinstance(y, Cond):
            split(x.c, y.c, g)
        elif isinstance(x, Opq) and isinstance(y, Opq) and x.name == y.name and len(x.args) == len(y.args):
            if x.name == "phi" and len(x.args) == 3 and isinstance(x.args[0], Cond) and isinstance(y.args[0], Cond):
                branches(x.args[0].c, y.args[0].c, x.args[1:], y.args[1:], g)
            else:
                stack.extend((p, q, g) for p, q in zip(x.args, y.args))
        elif isinstance(x, (tuple, list)) and isinstance(y, (tuple, list)) and len(x) == len(y) and x:
            if isinstance(x[0], str) and x[0] == y[0]:
                if x[0] in ("ite", "sel") and len(x) == 4:
                    branches(x[1], y[1], x[2:], y[2:], g)
                    continue
                if x[0] in ("cmp", "and", "or", "not", "b"):
                    try:
                        split(x, y, g)
                        continue
                    except TypeError:
                        pass
                if x[0] == "st" and len(x) == 2:
                    stack.append((STATES.get(x[1], ()), STATES.get(y[1], ()), g))
                    continue
            stack.extend((p, q, g) for p, q in zip(x, y))
        elif isinstance(x, (tuple, list)) and isinstance(y, (tuple, list)):
            out.append(g)
            k = 0
            while k < min(len(x), len(y)) and x[k] is y[k]:
                k += 1
            for z in (x, y):
                for u in z[k:k + 2]:
                    if isinstance(u, tuple) and u and u[0] == "ite":
                        out.append(g + ((u[1], True),))
                        out.append(g + ((u[1], False),))
        elif hasattr(x, "parts") and type(x) is type(y):
            p, q = x.parts(), y.parts()
            if len(p) == len(q):
                stack.extend((i, j, g) for i, j in zip(p, q))
            else:
                out.append(g)
        elif x != y:
            out.append(g)
    done, res = set(), []
    for g in out:
        if g and g not in done:
            done.add(g)
            res.append(g)
    return res


def of_loop(c):
    return len(c) == 2 and c[0] == "b" and isinstance(c[1], tuple) and c[1] and c[1][0] == "any"


def paths_cases(a, b, is_int, end):
    gs = diff_paths(a, b)
    if not gs:
        return True
    pool = set(odd_conditions(a, b)[1])
    pools = [tuple(sorted(pool | mentioned(leaves([c for c, _ in g])))) for g in gs]
    # whether some pass of a loop met a condition is any truth value; it can be chosen freely
    # when both sides ask exactly the same such questions
    la, lb = ({id(c) for c in leaves(x) if of_loop(c)} for x in (a, b))
    free = la == lb
    for seed in range(5):
        for g, pool in zip(gs, pools):
            if time.time() > end:
                return True
            try:
                e = Ev(3000 + seed, is_int, deadline=end)
                e.pool = pool
                bs = set()
                for c, _ in g:
                    bs |= fv(c)
                e.env = {x: (seed + j) % 3 for j, x in enumerate(sorted(bs, key=repr))}
                for c, w in g:
                    while c[0] == "not":
                        c, w = c[1], not w
                    if free and id(c) in la:
                        e.force[id(c)] = (c, w)
                e.steer(g, max(150, 12 * len(g)))
                e.env = {x: v for x, v in e.env.items() if x == W}
                e.states = {}
                e.cache = {}
                if not e.same(a, b):
                    return False
            except (Budget, RecursionError):
                pass
    return True


def quick(a, b, is_int, end, n=12):
    """False: a distinguishing interpretation exists; otherwise how many interpretations agreed."""
    ok = 0
    for seed in range(n):
        if time.time() > end:
            break
        try:
            if not Ev(seed, is_int, deadline=end).same(a, b):
                return False
            ok += 1
        except (Budget, RecursionError):
            if seed > 6:
                break
    return ok


def same_updates(a, b, is_int, n=400, seconds=6, end=None):
    """True: equal under every sampled interpretation; False: a distinguishing one exists; None: too costly."""
    ok = 0
    t0 = time.time()
    end = min(end or t0 + 10 * seconds, t0 + 10 * seconds)
    for seed in range(n):
        try:
            e = Ev(seed, is_int, deadline=end)
            if not e.same(a, b):
                return False
            ok += 1
        except (Budget, RecursionError):
            if seed > 6 or time.time() > end:
                break
            continue
        if seed >= 16 and time.time() - t0 > seconds or time.time() > end:
            break
    if not paths_cases(a, b, is_int, min(end, time.time() + 2 * seconds)):
        return False
    gs = goal_sets(a, b)
    for seed in range(12 if gs else 0):
        if time.time() > min(end, t0 + 3 * seconds):
            break
        for g in gs:
            if time.time() > min(end, t0 + 3 * seconds):
                break
            try:
                e = Ev(1000 + seed, is_int, deadline=end)
                if e.steer(g):
                    e.cache = {}
                    if not e.same(a, b):
                        return False
            except (Budget, RecursionError):
                pass
    if not odd_cases(a, b, is_int, min(end, time.time() + 2 * seconds)):
        return False
    return True if ok >= 3 else None
