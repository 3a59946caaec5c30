"""Interned terms for the Python analysis, their evaluation under random
interpretations, and comparison of effect summaries.

A term denotes a value of the analysed Python code as a function of the entry
state.  Two summaries are equal when every random interpretation of the atoms
(entry values, library functions, truth of comparisons) gives them the same
meaning: arithmetic is interpreted in Z_p, containers as containers, strings as
sequences of pieces, loops by their count and their body at sampled iterations,
everything else as an uninterpreted function.  No analysed code is executed.
"""
import hashlib
from fractions import Fraction

P = (1 << 61) - 1


class Term:
    __slots__ = ("op", "args", "id", "_bv", "_h", "_k", "_acc")

    def __repr__(self):
        return show(self)


TAB = {}
ALL = []


def T(op, *args):
    key = (op,) + tuple((0, a.id) if isinstance(a, Term) else (1, type(a).__name__, a) for a in args)
    t = TAB.get(key)
    if t is None:
        t = Term()
        t.op, t.args, t.id, t._bv, t._h, t._k, t._acc = op, args, len(ALL), None, None, None, None
        ALL.append(t)
        TAB[key] = t
    return t


def order(t):
    """Structural order, the same in every run."""
    if t._h is None:
        t._h = hashlib.blake2b(repr((t.op,) + tuple(order(a) if isinstance(a, Term) else a for a in t.args)).encode(), digest_size=8).hexdigest()
    return t._h


def K(v):
    return T("k", type(v).__name__, repr(v))


TRUE, FALSE, NONE = K(True), K(False), K(None)


def is_k(t):
    return t.op == "k"


def kval(t):
    n, r = t.args
    if n == "str":
        import ast
        return ast.literal_eval(r)
    if n == "bytes":
        import ast
        return ast.literal_eval(r)
    if n == "int":
        return int(r)
    if n == "bool":
        return r == "True"
    if n == "float":
        return float(r)
    if n == "complex":
        return complex(r)
    if n == "NoneType":
        return None
    return Ellipsis


def bvs(t):
    """Free bound-variable levels and loop-carried names of a term."""
    if t._bv is None:
        s = set()
        if t.op == "bv":
            s.add(t.args[0])
        else:
            for a in t.args:
                if isinstance(a, Term):
                    s |= bvs(a)
            if t.op == "acc":
                s.add(t.args[0])
            elif t.op in ("seg", "dseg", "each", "sum", "any", "last", "first", "eachraise", "sys"):
                s.discard(t.args[1])
        t._bv = frozenset(s)
    return t._bv


def accs(t):
    """Loop-carried variables (level, name) a term reads."""
    if t._acc is None:
        s = set()
        if t.op == "acc":
            s.add(t.args)
        for a in t.args:
            if isinstance(a, Term):
                s |= accs(a)
        if t.op in ("seg", "dseg", "each", "sum", "any", "last", "first", "eachraise", "sys"):
            s = {x for x in s if x[0] != t.args[1]}
        t._acc = frozenset(s)
    return t._acc


def levels(t):
    if t._k is None:
        t._k = tuple(sorted(bvs(t), key=str))
    return t._k


def has(t, pred, seen=None):
    seen = set() if seen is None else seen
    st = [t]
    while st:
        x = st.pop()
        if x.id in seen:
            continue
        seen.add(x.id)
        if pred(x):
            return True
        st.extend(a for a in x.args if isinstance(a, Term))
    return False


def walk(t, seen):
    st = [t]
    while st:
        x = st.pop()
        if x.id in seen:
            continue
        seen.add(x.id)
        yield x
        st.extend(a for a in x.args if isinstance(a, Term))


def subst(t, f, memo=None):
    """Replace subterms: f(term) gives a replacement or None."""
    memo = {} if memo is None else memo
    r = memo.get(t.id)
    if r is not None:
        return r
    r = f(t)
    if r is None:
        na = tuple(subst(a, f, memo) if isinstance(a, Term) else a for a in t.args)
        r = t if na == t.args else T(t.op, *na)
    memo[t.id] = r
    return r


def not_(c):
    if c is TRUE:
        return FALSE
    if c is FALSE:
        return TRUE
    if c.op == "not":
        return c.args[0]
    return T("not", c)


def and_(cs):
    out = []
    for c in cs:
        if c is FALSE:
            return FALSE
        if c is TRUE or c in out:
            continue
        if c.op == "and":
            out += [x for x in c.args if x not in out]
        else:
            out.append(c)
    if any(not_(c) in out for c in out):
        return FALSE
    return TRUE if not out else out[0] if len(out) == 1 else T("and", *out)


def or_(cs):
    return not_(and_([not_(c) for c in cs]))


def ite(c, a, b):
    if a is b or c is TRUE:
        return a
    if c is FALSE:
        return b
    if c.op == "not":
        return T("ite", c.args[0], b, a)
    return T("ite", c, a, b)


# ---------------------------------------------------------------- rendering
def show(t, d=0):
    if not isinstance(t, Term):
        return str(t)
    if d > 9:
        return "..."
    o, a = t.op, t.args
    s = lambda x: show(x, d + 1)
    if o == "k":
        return a[1]
    if o in ("v", "g"):
        return a[0]
    if o == "bv":
        return "i%s" % a[0]
    if o == "at":
        return "%s.%s%s" % (s(a[0]), a[1] if isinstance(a[1], str) else "<%s>" % s(a[1]), "'" if len(a) > 2 else "")
    if o == "it":
        return "%s[%s]%s" % (s(a[0]), s(a[1]), "'" if len(a) > 2 else "")
    if o == "op":
        return "(%s)" % (" %s " % a[0]).join(map(s, a[1:])) if len(a) > 2 else "%s%s" % (a[0], s(a[1]))
    if o == "cmp":
        return "%s %s %s" % (s(a[1]), a[0], s(a[2]))
    if o in ("and", "or"):
        return "(" + (" %s " % o).join(map(s, a)) + ")"
    if o == "not":
        return "not " + s(a[0])
    if o == "ite":
        return "(%s if %s else %s)" % (s(a[1]), s(a[0]), s(a[2]))
    if o == "call":
        return "%s(%s)" % (s(a[0]), ", ".join(map(s, a[1:])))
    if o == "kw":
        return "%s=%s" % (a[0], s(a[1]))
    if o == "meth":
        return "%s.%s(%s)" % (s(a[0]), a[1], ", ".join(map(s, a[2:])))
    if o in ("tuple", "list", "set"):
        return {"tuple": "(%s)", "list": "[%s]", "set": "{%s}"}[o] % ", ".join(map(s, a))
    return "%s(%s)" % (o, ", ".join(map(s, a)))


# ---------------------------------------------------------------- encoding
def encode(roots):
    """Terms -> (node list, encoded roots); roots is any nest of lists/dicts/strings/terms."""
    idx, nodes = {}, []

    def enc(t):
        st = [(t, False)]
        while st:
            x, done = st.pop()
            if x.id in idx:
                continue
            if not done:
                st.append((x, True))
                st.extend((a, False) for a in x.args if isinstance(a, Term))
                continue
            idx[x.id] = len(nodes)
            nodes.append([x.op] + [[idx[a.id]] if isinstance(a, Term) else a for a in x.args])
        return [idx[t.id]]

    def go(x):
        if isinstance(x, Term):
            return {"t": enc(x)[0]}
        if isinstance(x, dict):
            return {"d": [[k, go(v)] for k, v in sorted(x.items())]}
        if isinstance(x, (list, tuple)):
            return {"l": [go(v) for v in x]}
        return x
    r = go(roots)
    return nodes, r


def decode(nodes, r):
    ts = []
    for n in nodes:
        ts.append(T(n[0], *[ts[a[0]] if isinstance(a, list) else a for a in n[1:]]))

    def go(x):
        if isinstance(x, dict):
            if "t" in x:
                return ts[x["t"]]
            if "d" in x:
                return {k: go(v) for k, v in x["d"]}
            return [go(v) for v in x["l"]]
        return x
    return go(r)


# ---------------------------------------------------------------- evaluation
class M:
    __slots__ = ("v",)

    def __init__(self, v):
        self.v = v % P

    def __eq__(self, o):
        return isinstance(o, M) and o.v == self.v

    def __hash__(self):
        return hash(("M", self.v))

    def __repr__(self):
        return "M%d" % self.v


def small(r):
    """Unknowns that cancelled leave an ordinary number."""
    r %= P
    if r < 1 << 16:
        return r
    if P - r < 1 << 16:
        return r - P
    return M(r)


class Budget(Exception):
    pass


NJ = 3       # sampled iterations per loop


class Ev:
    def __init__(self, seed, budget=600000, force=None):
        self.seed = seed
        self.sysids = {}
        self.env = {}          # bv level -> int ; ("acc", level, name) -> value
        self.memo = {}
        self.nonneg = set()
        self.budget = budget
        self.rare = (2, 8, 32)[seed % 3]     # how rarely an unknown equals a constant
        self.force = force if force is not None else {}    # chosen truth of atoms, by meaning

    def h(self, *x):
        d = hashlib.blake2b(repr((self.seed,) + x).encode(), digest_size=8).digest()
        return int.from_bytes(d, "big") % P

    def key(self, t):
        b = levels(t)
        if not b:
            return t.id
        g = self.env.get
        if t._acc is None:
            accs(t)
        if t._acc:
            return (t.id, tuple([g(k) for k in b]), g("sysid"))
        return (t.id, tuple([g(k) for k in b]))

    def ev(self, t):
        k = self.key(t)
        if k in self.memo:
            return self.memo[k]
        self.budget -= 1
        if self.budget < 0:
            raise Budget()
        v = self.ev1(t)
        self.memo[k] = v
        return v

    # numbers
    def num(self, v):
        if isinstance(v, (M, int, Fraction)) and not isinstance(v, bool):
            return v
        if isinstance(v, bool):
            return int(v)
        r = M(self.h("num", repr(v)))
        if self.sizey(v):
            self.nonneg.add(r.v)
        return r

    def sizey(self, v):
        """A length: never negative."""
        if not isinstance(v, tuple) or not v:
            return False
        if v[0] == "call":
            return v[1] == ("g", "builtins.len")
        if v[0] == "at":
            return v[2] in ("size", "ndim")
        return v[0] == "it" and isinstance(v[1], tuple) and v[1][:1] == ("at",) and v[1][2] == "shape"

    def res(self, v):
        if isinstance(v, M):
            return v.v
        if isinstance(v, Fraction):
            return v.numerator % P * pow(v.denominator % P, P - 2, P) % P
        return v % P

    def sign(self, a, b):
        """sign(a-b)"""
        if not isinstance(a, M) and not isinstance(b, M):
            return (a > b) - (a < b)
        d = (self.res(a) - self.res(b)) % P
        if d == 0:
            return 0
        m = min(d, P - d)
        if d in self.nonneg or (P - d) in self.nonneg:
            s = self.force.get(("sgn", m))
            s = abs(s) if s is not None else self.h("sgn", m) % 5 != 0
            return int(s) if d in self.nonneg else -int(s)
        if self.nonneg and isinstance(b, int) and b < 0 and isinstance(a, M) and a.v in self.nonneg:
            return 1
        if self.nonneg and isinstance(a, int) and a < 0 and isinstance(b, M) and b.v in self.nonneg:
            return -1
        if ("sgn", m) in self.force:
            s = self.force[("sgn", m)]
            return s if m == d else -s
        r = self.h("sgn", m)
        if r % 5 == 0:
            return 0
        s = 1 if r % 2 else -1
        return s if m == d else -s

    def truth(self, v):
        if isinstance(v, bool):
            return v
        if v is None:
            return False
        if isinstance(v, (int, Fraction)):
            return v != 0
        if isinstance(v, tuple) and v and v[0] == "S" and all(isinstance(x, str) for x in v[1:]):
            return any(v[1:])
        if isinstance(v, tuple) and v and v[0] in ("list", "tuple", "dict", "set") and len(v) == 1:
            return False
        if self.sizey(v):
            return self.sign(self.num(v), 0) != 0
        f = self.force.get(("truth", repr(v)))
        return f if f is not None else bool(self.h("truth", repr(v)) & 1)

    def cond(self, t):
        return self.truth(self.ev(t))

    def eq(self, a, b):
        if repr(a) == repr(b):
            return True
        ca, cb = self.concrete(a), self.concrete(b)
        if ca and cb:
            return False
        if isinstance(a, (int, Fraction, M)) and isinstance(b, (int, Fraction, M)) and not isinstance(a, bool) and not isinstance(b, bool):
            return self.sign(a, b) == 0
        if self.sizes(a, b):
            return self.sign(self.num(a), self.num(b)) == 0
        x, y = sorted((repr(a), repr(b)))
        f = self.force.get(("eq", x, y))
        return f if f is not None else self.h("eq", x, y) % (self.rare if ca or cb else 2) == 0

    def sizes(self, a, b):
        """One operand is a length, the other a length or a number."""
        n = lambda z: isinstance(z, (int, Fraction, M)) and not isinstance(z, bool)
        p, q = self.sizey(a), self.sizey(b)
        return (p or q) and (p or n(a)) and (q or n(b))

    def concrete(self, v):
        if v is None or isinstance(v, (bool, int, Fraction)):
            return True
        if isinstance(v, tuple) and v and v[0] == "S":
            return all(isinstance(x, str) for x in v[1:])
        if isinstance(v, tuple) and v and v[0] in ("tuple", "list"):
            return all(self.concrete(x) for x in v[1:])
        return False

    def binop(self, o, a, b):
        if o in ("+", "*") or o in ("-", "/", "**", "//", "%"):
            if o == "+":
                if self.seq(a) or self.seq(b):
                    return self.concat(a, b)
            if o == "%" and isinstance(a, tuple) and a and a[0] == "S":
                return ("fmt%", a, b)
            if o == "/" and self.pathy(a, b):
                return ("path/", a, b)
            x, y = self.num(a), self.num(b)
            ex = not isinstance(x, M) and not isinstance(y, M)
            if o == "+":
                return x + y if ex else small(self.res(x) + self.res(y))
            if o == "-":
                return x - y if ex else small(self.res(x) - self.res(y))
            if o == "*":
                return x * y if ex else small(self.res(x) * self.res(y))
            if o == "/":
                if ex and y != 0:
                    return Fraction(x) / Fraction(y)
                return small(self.res(x) * pow(self.res(y), P - 2, P))
            if o == "**":
                if isinstance(y, int) and 0 <= y < 64:
                    return x ** y if ex else M(pow(self.res(x), y, P))
                if y == Fraction(1, 2):
                    return ("call", ("g", "numpy.sqrt"), a)
                return M(self.h("pow", repr(x), repr(y)))
            if ex and y:
                return x // y if o == "//" else x % y
            return M(self.h(o, repr(x), repr(y)))
        if o in ("&", "|", "^", "<<", ">>", "@"):
            if isinstance(a, bool) and isinstance(b, bool) and o in "&|":
                return (a and b) if o == "&" else (a or b)
            if o in "&|^":
                a, b = sorted((a, b), key=repr)
            return ("op", o, a, b)
        return ("op", o, a, b)

    def pathy(self, a, b):
        for v in (a, b):
            if isinstance(v, tuple) and v and v[0] in ("S", "path/"):
                return True
        return False

    def seq(self, v):
        return isinstance(v, tuple) and v and v[0] in ("S", "list", "tuple")

    def concat(self, a, b):
        k = a[0] if self.seq(a) else b[0]
        x = a[1:] if self.seq(a) else (("piece", a),)
        y = b[1:] if self.seq(b) else (("piece", b),)
        return self.mkseq(k, x + y)

    def mkseq(self, k, items):
        if k != "S":
            return (k,) + tuple(items)
        out = []
        for x in items:
            if isinstance(x, tuple) and len(x) == 2 and x[0] == "piece" and isinstance(x[1], tuple) and x[1] and x[1][0] == "S":
                for y in x[1][1:]:
                    self.push(out, y)
            else:
                self.push(out, x)
        return ("S",) + tuple(out)

    def push(self, out, x):
        if isinstance(x, str) and out and isinstance(out[-1], str):
            out[-1] += x
        elif x != "":
            out.append(x)

    def fmt(self, v, conv, spec):
        if isinstance(v, tuple) and v and v[0] == "S" and not conv and not spec:
            return v
        if isinstance(v, int) and not isinstance(v, bool) and not conv and not spec:
            return ("S", str(v))
        return ("S", ("fmt", v, conv, spec))

    # loops
    def samples(self, t_count, level, system, f, terms=()):
        """Values of f at the sampled iterations, with the loop's count and what its carried variables do."""
        old = (self.env.get(level), self.env.get("sys"), self.env.get("sysid"))
        out = []
        dig = ()
        try:
            if system is not None and system.op == "sys":
                self.sysval(system, level)
                names = {n for t in tuple(terms) + (t_count,) for l, n in accs(t) if l == level}
                dig = self.digest(system, level, names)
            self.env[level] = 0
            cnt = self.ev(t_count)
            for j in range(NJ):
                self.env[level] = j
                out.append(f())
        finally:
            self.restore((level, "sys", "sysid"), old)
        return ("loop", cnt, tuple(out), dig) if dig else ("loop", cnt, tuple(out))

    def restore(self, ks, old):
        for k, v in zip(ks, old):
            if v is None:
                self.env.pop(k, None)
            else:
                self.env[k] = v

    def setsys(self, v):
        self.env["sys"] = v
        self.env["sysid"] = self.sysids.setdefault(v, len(self.sysids))

    def within(self, loops, f):
        """f in the first iteration of the given nest of loops."""
        if not loops:
            return f()
        c, level, system = loops[0]
        old = (self.env.get(level), self.env.get("sys"), self.env.get("sysid"))
        try:
            if system is not None and system.op == "sys":
                self.sysval(system, level)
            self.env[level] = 0
            return self.within(loops[1:], f)
        finally:
            self.restore((level, "sys", "sysid"), old)

    def vars(self, s):
        v = self.memo.get(("vars", s.id))
        if v is None:
            v = self.memo[("vars", s.id)] = {s.args[i]: (s.args[i + 1], s.args[i + 2]) for i in range(2, len(s.args), 3)}
        return v

    def digest(self, s, level, names):
        """What the loop does to the carried variables that matter (with the environment of the system in place)."""
        vs = self.vars(s)
        seen, todo = set(), [n for n in names if n in vs]
        while todo:
            n = todo.pop()
            if n in seen:
                continue
            seen.add(n)
            todo += [m for l, m in accs(vs[n][1]) if l == level and m in vs]
        if not seen:
            return ()
        old = self.env.get(level)
        out = []
        for n in seen:
            k = ("dig", s.id, n, self.env.get("sysid"))
            if k not in self.memo:
                r = []
                for j in range(2):
                    self.env[level] = j
                    r.append(repr(self.ev(vs[n][1])))
                self.memo[k] = self.h("dig", tuple(r), repr(self.ev(vs[n][0])))
            out.append(self.memo[k])
        self.restore((level,), (old,))
        return tuple(sorted(out))

    def sysval(self, s, level):
        """Meaning of a system of loop-carried variables, independent of their names.

        sys(count, level, name1, init1, next1, name2, ...)"""
        k = ("sys", s.id, tuple([self.env.get(x) for x in levels(s)]), self.env.get("sysid"))
        if k not in self.memo:
            vs = [s.args[i:i + 3] for i in range(2, len(s.args), 3)]
            sig = {n: self.h("init", repr(self.ev(i))) for n, i, _ in vs}
            outer = dict(self.env)
            for rnd in range(3):
                new = {n: [sig[n]] for n in sig}
                self.env[level] = rnd % 2
                self.setsys(outer.get("sys", ()) + ((level, tuple(sorted(sig.items()))),))
                for n, i, f in vs:
                    new[n].append(repr(self.ev(f)))
                c = repr(self.ev(s.args[0]))
                sig = {n: self.h("sig", tuple(new[n]), c if rnd == 2 else 0) for n in sig}
            self.env = outer
            self.memo[k] = sig
        sig = self.memo[k]
        self.setsys(self.env.get("sys", ()) + ((level, tuple(sorted(sig.items()))),))
        return sig

    def ev1(self, t):
        o, a = t.op, t.args
        if o == "k":
            v = kval(t)
            if isinstance(v, str):
                return ("S", v) if v else ("S",)
            if isinstance(v, float):
                if v != v or v in (float("inf"), float("-inf")):
                    return ("float", repr(v))
                return Fraction(repr(v)) if v != int(v) or abs(v) > 1e15 else int(v)
            if isinstance(v, (bool, int)) or v is None:
                return v
            return ("const", repr(v))
        if o == "v":
            return M(self.h("v", a[0]))
        if o == "g":
            return ("g", a[0])
        if o == "bv":
            if a[0] in self.env:
                return self.env[a[0]]
            return M(self.h("bv", a[0]))
        if o == "acc":
            for lv, sig in reversed(self.env.get("sys", ())):
                if lv == a[0]:
                    d = dict(sig)
                    if a[1] in d:
                        return M(self.h("acc", d[a[1]], self.env.get(a[0], 0)))
            return M(self.h("acc", a[0], a[1]))
        if o == "ite":
            return self.ev(a[1]) if self.cond(a[0]) else self.ev(a[2])
        if o == "not":
            return not self.cond(a[0])
        if o == "and":
            return all(self.cond(x) for x in a)
        if o == "or":
            return any(self.cond(x) for x in a)
        if o == "truth":
            return self.cond(a[0])
        if o == "cmp":
            x, y = self.ev(a[1]), self.ev(a[2])
            if a[0] == "eq":
                return self.eq(x, y)
            if a[0] == "is":
                if repr(x) == repr(y):
                    return True
                if self.concrete(x) and self.concrete(y):
                    return False
                for p, q in ((x, y), (y, x)):
                    if q is None and (isinstance(p, tuple) or isinstance(p, (int, Fraction))):
                        if not (isinstance(p, tuple) and p and p[0] in ("at", "it", "meth", "call", "ite")):
                            return False
                    if q is None and isinstance(p, tuple) and p and p[0] == "it" and self.nonnull(p[1]):
                        return False
                k = ("is",) + tuple(sorted((repr(x), repr(y))))
                f = self.force.get(k)
                return f if f is not None else self.h(*k) % 2 == 0
            if a[0] in ("lt", "le"):
                if isinstance(x, tuple) or isinstance(y, tuple):
                    if repr(x) == repr(y):
                        return a[0] == "le"
                    x, y = self.num(x), self.num(y)
                s = self.sign(self.num(x), self.num(y))
                return s < 0 if a[0] == "lt" else s <= 0
            if a[0] == "in":
                if isinstance(y, tuple) and y and y[0] == "dict":
                    if any(len(e) == 2 and repr(e[0]) == repr(x) and not (isinstance(e[1], tuple) and e[1] and e[1][0] == "popped") for e in y[1:]):
                        return True
                    if all(len(e) == 2 and not (isinstance(e[1], tuple) and e[1] and e[1][0] == "popped") for e in y[1:]):
                        return any(self.eq(x, e[0]) for e in y[1:])
                if isinstance(y, tuple) and y and y[0] in ("list", "tuple", "set") and all(not (isinstance(z, tuple) and z and z[0] == "seg") for z in y[1:]):
                    return any(self.eq(x, z) for z in y[1:])
                f = self.force.get(("in", repr(x), repr(y)))
                return f if f is not None else self.h("in", repr(x), repr(y)) % (2 if self.rare == 2 else 4) == 0
        if o == "op":
            if len(a) == 2:
                x = self.ev(a[1])
                if a[0] == "-":
                    x = self.num(x)
                    return M(-x.v) if isinstance(x, M) else -x
                if a[0] == "+":
                    return x
                return ("op", a[0], x)
            return self.binop(a[0], self.ev(a[1]), self.ev(a[2]))
        if o == "cat":
            r = ("S",)
            for x in a:
                r = self.concat(r, self.ev(x))
            return r
        if o == "fmt":
            return self.fmt(self.ev(a[0]), a[1], self.ev(a[2]) if isinstance(a[2], Term) else a[2])
        if o in ("tuple", "list", "set"):
            items = []
            for x in a:
                if x.op == "opt":
                    if self.cond(x.args[0]):
                        items.append(self.ev(x.args[1]))
                elif x.op == "splice":
                    v = self.ev(x.args[0])
                    if isinstance(v, tuple) and v and v[0] in ("list", "tuple"):
                        items += v[1:]
                    else:
                        items.append(("splice", v))
                else:
                    items.append(self.ev(x))
            if o == "set":
                items = sorted(set(items), key=repr)
            return (o,) + tuple(items)
        if o == "seg":
            # seg(count, level, guard, elem, system)
            return ("seg", self.samples(a[0], a[1], a[4], lambda: ("e", self.ev(a[3])) if self.cond(a[2]) else ("none",), (a[2], a[3])))
        if o in ("sum", "any", "last", "first"):
            # op(count, level, guard, body, system[, init])
            v = self.samples(a[0], a[1], a[4], lambda: ("e", self.ev(a[3])) if self.cond(a[2]) else ("none",), (a[2], a[3]))
            if o == "any":
                w = ("any", v)
                if all(x == ("none",) for x in v[2]):
                    return False
                return self.anyof(w)
            if o == "sum":
                xs = [x[1] for x in v[2] if x[0] == "e"]
                if any(self.seq(x) for x in xs):
                    return ("S", ("sum", v))
                return M(self.h("sum", repr(v)))
            if o == "last":
                return M(self.h("last", repr(v), repr(self.ev(a[5]))))
            return M(self.h("first", repr(v)))
        if o == "anyr":
            return self.raised(a[0])
        if o == "post":
            s = a[0]
            lv = s.args[1]
            old = (self.env.get(lv), self.env.get("sys"), self.env.get("sysid"))
            try:
                sig = self.sysval(s, lv)
                dig = self.digest(s, lv, [a[1]] + [n for l, n in accs(s.args[0]) if l == lv])
            finally:
                self.restore((lv, "sys", "sysid"), old)
            return M(self.h("post", sig[a[1]], dig))
        if o == "at":
            b = self.ev(a[0])
            n = a[1] if isinstance(a[1], str) else self.ev(a[1])
            if isinstance(n, tuple) and len(n) == 2 and n[0] == "S" and isinstance(n[1], str):
                n = n[1]
            r, b = self.lookup(b, ("at", n))
            if r is not None:
                return r[0]
            if len(a) > 2:
                hv = self.hist(a[2])
                return ("at", b, n, hv) if hv else ("at", b, n)
            return ("at", b, n)
        if o == "it":
            b = self.ev(a[0])
            n = self.ev(a[1])
            if isinstance(b, tuple) and b and b[0] in ("tuple", "list") and isinstance(n, int) and not isinstance(n, bool) and \
                    all(not (isinstance(z, tuple) and z and z[0] in ("seg", "splice", "piece")) for z in b[1:]):
                i = n if n >= 0 else n + len(b) - 1
                if 0 <= i < len(b) - 1:
                    return b[1 + i]
            r, b = self.lookup(b, ("it", n))
            if r is not None:
                return r[0]
            hv = self.hist(a[2]) if len(a) > 2 else ()
            if n == 0 and not isinstance(n, bool) and isinstance(b, tuple) and len(b) == 3 and b[0] == "at" and b[2] == "shape" and not hv:
                return ("call", ("g", "builtins.len"), b[1])
            if isinstance(b, tuple) and b and b[0] == "it" and len(b) == 3 and not hv and self.plain(n) and self.plain(b[2]):
                prev = b[2][1:] if isinstance(b[2], tuple) and b[2] and b[2][0] == "idx" else (b[2],)
                new = n[1:] if isinstance(n, tuple) and n and n[0] == "tuple" else (n,)
                return ("it", b[1], ("idx",) + prev + new)
            if isinstance(n, tuple) and n and n[0] == "tuple" and self.plain(n):
                n = ("idx",) + n[1:]
            return ("it", b, n, hv) if hv else ("it", b, n)
        if o == "dict":
            return self.mkdict(a)
        if o == "upd":
            return self.upds(t)
        if o == "call":
            xs = tuple(self.ev(x) for x in a)
            return ("call",) + xs
        if o == "kw":
            return ("kw", a[0], self.ev(a[1]))
        if o == "meth":
            return ("meth", a[1]) + (self.ev(a[0]),) + tuple(self.hist(x) if x.op == "hist" else self.ev(x) for x in a[2:])
        if o == "hist":
            return ("hist",) + self.hist(t)
        return (o,) + tuple(self.ev(x) if isinstance(x, Term) else x for x in a)

    def raised(self, r):
        """Does this raise happen (nested in its loops)?"""
        if r.op == "raise":
            return self.cond(r.args[0])
        if r.op == "ctx":
            return self.raised(r.args[0])
        v = self.samples(r.args[0], r.args[1], r.args[2], lambda: ("e", True) if self.raised(r.args[3]) else ("none",), (r.args[3],))
        if all(x == ("none",) for x in v[2]):
            return False
        return self.anyof(("any", v))

    def anyof(self, w):
        f = self.force.get(("any", repr(w)))
        return f if f is not None else self.h(repr(w)) % 2 == 0

    def options(self, c, w):
        """Choices of the truth of one atom that bring condition c closer to w: list of {key: value}."""
        if self.cond(c) == w:
            return []
        o, a = c.op, c.args
        if o == "not":
            return self.options(a[0], not w)
        if o in ("and", "or"):
            if (o == "and") == w:
                for x in a:
                    r = self.options(x, w)
                    if r:
                        return r
                return []
            return [y for x in reversed(a) for y in self.options(x, w)]
        if o == "truth" and a[0].op in ("cmp", "not", "and", "or", "truth", "any", "anyr", "ite"):
            return self.options(a[0], w)
        if o == "ite":
            return self.options(a[1] if self.cond(a[0]) else a[2], w) + self.options(a[0], not self.cond(a[0]))
        if o == "truth" or o not in ("cmp", "any", "anyr", "k"):
            v = self.ev(a[0] if o == "truth" else c)
            if isinstance(v, bool) or v is None or isinstance(v, (int, Fraction)):
                return []
            if self.sizey(v):
                d = self.num(v).v
                return [{("sgn", min(d, P - d)): int(w)}]
            return [{("truth", repr(v)): w}]
        if o == "any":
            v = self.samples(a[0], a[1], a[4], lambda: ("e", self.ev(a[3])) if self.cond(a[2]) else ("none",), (a[2], a[3]))
            if w and all(x == ("none",) for x in v[2]):
                return self.within(((a[0], a[1], a[4]),), lambda: self.options(a[2], True))
            return [{("any", repr(("any", v))): w}]
        if o == "anyr":
            r = a[0]
            if r.op != "eachraise":
                return self.options(r.args[0], w) if r.op == "raise" else []
            v = self.samples(r.args[0], r.args[1], r.args[2], lambda: ("e", True) if self.raised(r.args[3]) else ("none",), (r.args[3],))
            if w and all(x == ("none",) for x in v[2]):
                return self.within(((r.args[0], r.args[1], r.args[2]),), lambda: self.options(T("anyr", r.args[3]), True))
            return [{("any", repr(("any", v))): w}]
        if o == "cmp":
            x, y = self.ev(a[1]), self.ev(a[2])
            if a[0] in ("lt", "le") or (a[0] == "eq" and (self.sizes(x, y) or all(isinstance(z, (int, Fraction, M)) and not isinstance(z, bool) for z in (x, y)))):
                x, y = self.num(x), self.num(y)
                if not isinstance(x, M) and not isinstance(y, M):
                    return []
                d = (self.res(x) - self.res(y)) % P
                if d == 0:
                    return []
                m = min(d, P - d)
                ss = {"lt": (-1,) if w else (0, 1), "le": (0, -1) if w else (1,), "eq": (0,) if w else (1, -1)}[a[0]]
                ss = ss[::-1] if self.h("zero", m) % 2 else ss
                return [{("sgn", m): s if m == d else -s} for s in ss]
            if a[0] not in ("eq", "is", "in"):
                return [{("truth", repr(self.ev(c))): w}]
            if a[0] == "in":
                return [{("in", repr(x), repr(y)): w}]
            if self.concrete(x) and self.concrete(y):
                return []
            return [{(a[0],) + tuple(sorted((repr(x), repr(y)))): w}]
        return []

    def nonnull(self, b):
        """A dictionary all of whose values are known not to be None."""
        if not (isinstance(b, tuple) and b and b[0] == "dict"):
            return False
        ok = lambda v: isinstance(v, (int, Fraction)) or (isinstance(v, tuple) and v and v[0] in ("S", "tuple", "list"))
        for e in b[1:]:
            vs = [e[1]] if len(e) == 2 else [y[2] for z in e[2][2] for y in z] if e[0] == "eachset" and isinstance(e[2], tuple) and len(e[2]) > 2 and e[2][0] != "dict" else [None]
            try:
                if not all(ok(v) for v in vs):
                    return False
            except (TypeError, IndexError):
                return False
        return True

    def plain(self, n):
        if isinstance(n, tuple) and n and n[0] in ("slice", "const", "list"):
            return False
        if isinstance(n, tuple) and n and n[0] in ("tuple", "idx"):
            return all(self.plain(x) for x in n[1:])
        return True

    # objects with updates
    def ops(self, u):
        """Evaluated effects of one update: list of (kind, key, payload)."""
        if u.op == "ctx":
            tags = tuple(self.ev(x) for x in u.args[1:])
            return [(k, key, ("ctx", pay, tags)) for k, key, pay in self.ops(u.args[0])]
        if u.op == "each":
            # each(count, level, system, u)
            v = self.samples(u.args[0], u.args[1], u.args[2], lambda: tuple(self.ops(u.args[3])), (u.args[3],))
            if all(not x for x in v[2]):
                return []
            sub = [y for x in v[2] for y in x]
            keyed = all(y[0] == "set" for y in sub)
            if keyed and sub:
                return [("eachset", tuple(y[1] for y in sub), v)]
            return [("each", None, v)]
        if u.op == "carried":
            return [("call", None, ("carried", self.env.get(u.args[0], 0)))]
        g = u.args[0]
        if not self.cond(g):
            return []
        if u.op == "sattr":
            n = u.args[1] if isinstance(u.args[1], str) else self.ev(u.args[1])
            if isinstance(n, tuple) and len(n) == 2 and n[0] == "S" and isinstance(n[1], str):
                n = n[1]
            return [("set", ("at", n), self.ev(u.args[2]))]
        if u.op == "sitem":
            k = self.ev(u.args[1])
            return [("set", ("it", k), self.ev(u.args[2]))]
        if u.op == "spath":
            p, k = self.ev(u.args[1]), self.ev(u.args[2])
            return [("set", (p, k), self.ev(u.args[3]))]
        if u.op == "mcall":
            n = u.args[1]
            xs = tuple(self.ev(x) for x in u.args[2:])
            if n in ("setdefault", "pop") and xs:
                return [("key" + n, ("it", xs[0]), xs[1:])]
            if n == "update" and len(xs) == 1 and isinstance(xs[0], tuple) and xs[0] and xs[0][0] == "dict":
                return [("set", ("it", k), v) for k, v in xs[0][1:]] if all(len(e) == 2 for e in xs[0][1:]) else [("call", None, (n,) + xs)]
            return [("call", None, (n,) + xs)]
        return [("call", None, (u.op,) + tuple(self.ev(x) if isinstance(x, Term) else x for x in u.args[1:]))]

    def chain(self, t):
        us = []
        while t.op == "upd":
            us.append(t.args[1])
            t = t.args[0]
        return t, us[::-1]

    def upds(self, t):
        base, us = self.chain(t)
        b = self.ev(base)
        ops = []
        for u in us:
            ops += self.ops(u)
        return self.apply(b, ops)

    def apply(self, b, ops):
        if isinstance(b, tuple) and b and b[0] == "list":
            while ops and ops[0][0] == "call" and ops[0][2][0] in ("append", "extend"):
                n, x = ops[0][2][0], ops[0][2][1:]
                if n == "append" and len(x) == 1:
                    b = b + (x[0],)
                elif n == "extend" and len(x) == 1 and isinstance(x[0], tuple) and x[0] and x[0][0] in ("list", "tuple"):
                    b = b + x[0][1:]
                else:
                    break
                ops = ops[1:]
            while ops and ops[0][0] == "each" and all(len(x) <= 1 and all(y[0] == "call" and y[2][0] == "append" and len(y[2]) == 2 for y in x) for x in ops[0][2][2]):
                v = ops[0][2]
                b = b + (("seg", ("loop", v[1], tuple(("e", x[0][2][1]) if x else ("none",) for x in v[2]))),)
                ops = ops[1:]
        if isinstance(b, tuple) and b and b[0] == "dict" and all(x[0] in ("set", "keysetdefault", "keypop", "eachset") for x in ops):
            b, ops = self.dictapply(b, ops)
        if isinstance(b, tuple) and b and b[0] == "set" and ops:
            seen = []
            for x in ops:
                seen.append(x)
            return ("obj", b, tuple(sorted(map(repr, seen)))) if all(x[0] in ("call", "each") for x in ops) else ("obj", b, self.epochs(ops))
        if not ops:
            return b
        return ("obj", b, self.epochs(ops))

    def epochs(self, ops):
        """Stores to different places commute; calls do not."""
        out, cur = [], {}
        for o in ops:
            if o[0] in ("set", "keysetdefault", "keypop") and self.plain(o[1]):
                k = repr(o[1])
                if o[0] == "set" and not self.slicey(o[1]):
                    cur[k] = [o]
                else:
                    cur.setdefault(k, []).append(o)
            elif o[0] == "eachset":
                cur.setdefault(repr(o[1]), []).append(o)
            else:
                if cur:
                    out.append(tuple(sorted((k, tuple(v)) for k, v in cur.items())))
                    cur = {}
                out.append(o)
        if cur:
            out.append(tuple(sorted((k, tuple(v)) for k, v in cur.items())))
        return tuple(out)

    def slicey(self, k):
        return "slice" in repr(k)

    def mkdict(self, a):
        ops = []
        for x in a:
            if x.op == "pair":
                ops.append(("set", ("it", self.ev(x.args[0])), self.ev(x.args[1])))
            elif x.op == "dseg":
                # dseg(count, level, guard, key, val, system)
                v = self.samples(x.args[0], x.args[1], x.args[5], lambda: (("set", ("it", self.ev(x.args[3])), self.ev(x.args[4])),) if self.cond(x.args[2]) else (), (x.args[2], x.args[3], x.args[4]))
                sub = [y for z in v[2] for y in z]
                if sub:
                    ops.append(("eachset", tuple(y[1] for y in sub), v))
            elif x.op == "dsplat":
                v = self.ev(x.args[0])
                if isinstance(v, tuple) and v and v[0] == "dict":
                    for e in v[1:]:
                        ops.append(("set", ("it", e[0]), e[1]) if len(e) == 2 else e)
                else:
                    ops.append(("eachset", (("splat", v),), v))
        return self.dictapply(("dict",), ops)[0]

    def dictapply(self, b, ops):
        """A dict is its entries; quantified entries keep their place only relative to clashing keys."""
        ent = {}
        segs = []
        for e in b[1:]:
            if len(e) == 2:
                ent[repr(e[0])] = e
            else:
                segs.append(e)
        for o in ops:
            if o[0] == "eachset":
                segs.append(o)
                continue
            k = o[1][1]
            if o[0] == "set":
                ent[repr(k)] = (k, o[2])
            elif o[0] == "keypop":
                ent[repr(k)] = (k, ("popped", ent.get(repr(k))))
            elif repr(k) not in ent or not self.concrete(k):
                old = ent.get(repr(k), (k, None))[1]
                ent[repr(k)] = (k, ("default", old, o[2], tuple(map(repr, segs))))
        return ("dict",) + tuple(sorted(ent.values(), key=repr)) + tuple(sorted(segs, key=repr)), []

    def lookup(self, b, key):
        """Read of an attribute/item of a value: ((value,), b) when known, else (None, b without irrelevant updates)."""
        if isinstance(b, tuple) and b and b[0] == "dict" and key[0] == "it":
            for e in b[1:]:
                if len(e) == 2 and repr(e[0]) == repr(key[1]):
                    if isinstance(e[1], tuple) and e[1] and e[1][0] in ("default", "popped"):
                        return None, b
                    return (e[1],), b
            segs = tuple(e for e in b[1:] if len(e) != 2)
            if self.concrete(key[1]) and all(self.concrete(e[0]) for e in b[1:] if len(e) == 2):
                return None, ("dict",) + segs
            return None, b
        if isinstance(b, tuple) and b and b[0] == "obj" and len(b) == 3 and isinstance(b[2], tuple):
            ep = list(b[2])
            while ep and isinstance(ep[-1], tuple) and ep[-1] and isinstance(ep[-1][0], tuple):
                d = dict(ep[-1])
                if repr(key) in d:
                    ops = d[repr(key)]
                    if len(ops) == 1 and ops[0][0] == "set" and not self.slicey(key):
                        return (ops[0][2],), b
                    return None, b
                if any(k.startswith("(('it'") or "eachset" in repr(v) for k, v in d.items()) or key[0] == "it":
                    return None, ("obj", b[1], tuple(ep))
                ep.pop()
            return None, (("obj", b[1], tuple(ep)) if ep else b[1])
        return None, b

    def hist(self, t):
        """Earlier effects a read may depend on (evaluated)."""
        ops = []
        for u in t.args:
            ops += self.ops(u)
        return self.epochs(ops)
