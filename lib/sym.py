"""Symbolic value domain: polynomials over hashable atoms.

A Poly is a finite sum of coefficient * monomial; a monomial is a sorted tuple
of (atom, power).  Structurally equal polynomials are equal values, whatever the
order in which the source computed them.
"""
from fractions import Fraction


_KEY = {}


def akey(a):
    k = _KEY.get(a)
    if k is None:
        k = repr(a)
        _KEY[a] = k
    return k


class Poly:
    __slots__ = ("t", "_h", "_k")

    def __init__(self, t=None):
        self.t = t or {}
        self._h = None
        self._k = None

    @staticmethod
    def const(c):
        if isinstance(c, bool):
            c = int(c)
        if isinstance(c, float):
            c = Fraction(c) if c == c and abs(c) != float("inf") else None
            if c is None:
                return Poly.atom(("nan",))
        c = Fraction(c)
        return Poly({(): c}) if c else Poly({})

    @staticmethod
    def atom(a):
        return Poly({((a, 1),): Fraction(1)})

    def __hash__(self):
        if self._h is None:
            self._h = hash(frozenset(self.t.items()))
        return self._h

    def __eq__(self, o):
        return self is o or isinstance(o, Poly) and self.t == o.t

    def __ne__(self, o):
        return not self == o

    def __add__(self, o):
        r = dict(self.t)
        for m, c in o.t.items():
            n = r.get(m, 0) + c
            if n:
                r[m] = n
            else:
                r.pop(m, None)
        return Poly(r)

    def __neg__(self):
        return Poly({m: -c for m, c in self.t.items()})

    def __sub__(self, o):
        return self + (-o)

    def __mul__(self, o):
        if len(self.t) * len(o.t) > 4000:
            return Poly.atom(("mul", self, o))
        r = {}
        for m1, c1 in self.t.items():
            for m2, c2 in o.t.items():
                m = mmul(m1, m2)
                n = r.get(m, 0) + c1 * c2
                if n:
                    r[m] = n
                else:
                    r.pop(m, None)
        return Poly(r)

    def is_const(self):
        return not self.t or (len(self.t) == 1 and () in self.t)

    def cval(self):
        return self.t.get((), Fraction(0)) if self.is_const() else None

    def const_part(self):
        return self.t.get((), Fraction(0))

    def inverse(self):
        if self.is_const():
            c = self.cval()
            return Poly.const(1 / c) if c else Poly.atom(("inv", self))
        if len(self.t) == 1:
            (m, c), = self.t.items()
            return Poly({tuple((a, -p) for a, p in m): 1 / c})
        # normalise the leading coefficient so that 1/(k*p) == (1/k)*(1/p)
        lead = self.t[min(self.t, key=repr)]
        p = Poly({m: c / lead for m, c in self.t.items()})
        return Poly({((("inv", p), 1),): 1 / lead})

    def atoms(self):
        for m in self.t:
            for a, _ in m:
                yield a

    def all_atoms(self, seen=None):
        seen = seen if seen is not None else set()
        for a in self.atoms():
            if a in seen:
                continue
            seen.add(a)
            for x in _flat(a):
                if isinstance(x, Poly):
                    x.all_atoms(seen)
        return seen

    def subst(self, f):
        """Replace atoms: f(atom) -> Poly or None (keep)."""
        out = Poly({})
        for m, c in self.t.items():
            p = Poly({(): c})
            for a, k in m:
                r = f(a)
                if r is None:
                    r = Poly.atom(a)
                if k > 0:
                    for _ in range(k):
                        p = p * r
                else:
                    inv = r.inverse()
                    for _ in range(-k):
                        p = p * inv
            out = out + p
        return out

    def coeff(self, atom):
        """(coefficient polynomial of atom^1, rest) or None if not linear in atom."""
        co, rest = {}, {}
        for m, c in self.t.items():
            k = [p for a, p in m if a == atom]
            if not k:
                rest[m] = c
            elif k[0] == 1:
                co[tuple(x for x in m if x[0] != atom)] = c
            else:
                return None
        return Poly(co), Poly(rest)

    def __repr__(self):
        if self._k is None:
            self._k = self._repr()
        return self._k

    def _repr(self):
        if not self.t:
            return "0"
        out = []
        for m in sorted(self.t, key=lambda m: [(akey(a), p) for a, p in m]):
            c = self.t[m]
            s = "*".join(ashow(a) + ("^%d" % p if p != 1 else "") for a, p in m)
            if not m:
                s = cshow(c)
            elif c == -1:
                s = "-" + s
            elif c != 1:
                s = cshow(c) + "*" + s
            out.append(s)
        return " + ".join(out).replace("+ -", "- ")


def cshow(c):
    if c.denominator == 1:
        return str(c.numerator)
    f = float(c)
    return repr(f)


def _flat(a):
    if isinstance(a, tuple):
        for x in a:
            if isinstance(x, tuple):
                yield from _flat(x)
            else:
                yield x


def mmul(m1, m2):
    if not m1:
        return m2
    if not m2:
        return m1
    d = dict(m1)
    for a, p in m2:
        n = d.get(a, 0) + p
        if n:
            d[a] = n
        else:
            del d[a]
    return tuple(sorted(d.items(), key=lambda x: akey(x[0])))


def pshow(path):
    s = ""
    for i, x in enumerate(path):
        if i == 0:
            if x[0] == "loc":
                s = x[3]
            elif x[0] == "this":
                s = "this"
            else:
                s = str(x[-1])
        elif isinstance(x, str):
            s += "." + x
        elif x[0] == "[]":
            s += "[" + ", ".join(repr(i) for i in x[1:]) + "]"
        else:
            s += str(x)
    return s


def ashow(a):
    if a[0] == "ld":
        return pshow(a[1])
    if a[0] == "lv":
        return a[2]
    if a[0] == "size":
        return "size(%s)" % pshow(a[1])
    if a[0] == "fn":
        return "%s(%s)" % (a[1], ", ".join(repr(x) for x in a[2:]))
    if a[0] in ("idiv", "mod", "max", "min", "inv", "mul"):
        return "%s(%s)" % (a[0], ", ".join(repr(x) for x in a[1:]))
    if a[0] == "ite":
        return "(%s ? %r : %r)" % (cndshow(a[1]), a[2], a[3])
    if a[0] == "u":
        return "?%s" % (a[1],)
    return str(a)


ZERO = Poly({})
ONE = Poly.const(1)


# ---- conditions -------------------------------------------------------------
# ("cmp", op, poly)  meaning poly op 0, op in {"<", "<=", "==", "!="}
# ("b", key)         opaque boolean
# ("not", c), ("and", (c...)), ("or", (c...)), ("true",), ("false",)

TRUE = ("true",)
FALSE = ("false",)


def cmp_(op, a, b):
    d = a - b
    if op == ">":
        d, op = -d, "<"
    elif op == ">=":
        d, op = -d, "<="
    c = d.cval()
    if c is not None:
        r = {"<": c < 0, "<=": c <= 0, "==": c == 0, "!=": c != 0}[op]
        return TRUE if r else FALSE
    # canonical scale (and sign, for equalities)
    lead = d.t[min(d.t, key=lambda m: [(akey(a), p) for a, p in m])]
    k = abs(lead) if op in ("<", "<=") else lead
    if k != 1:
        d = Poly({m: x / k for m, x in d.t.items()})
    return ("cmp", op, d)


_NOT, _NOT2 = {}, {}


def not_(c):
    if c[0] == "true":
        return FALSE
    if c[0] == "false":
        return TRUE
    if c[0] == "not":
        return c[1]
    if c[0] == "cmp":
        _, op, d = c
        if op == "<":
            return ("cmp", "<=", -d)
        if op == "<=":
            return ("cmp", "<", -d)
        return ("cmp", "!=" if op == "==" else "==", d)
    if c[0] in ("and", "or"):
        m = _NOT.get(id(c))
        if m is not None and m[0] is c:
            return m[1]
        try:
            r = _NOT2.get(c)
        except TypeError:
            return (or_ if c[0] == "and" else and_)([not_(x) for x in c[1]])
        if r is None:
            r = (or_ if c[0] == "and" else and_)([not_(x) for x in c[1]])
            if len(_NOT2) > 100000:
                _NOT2.clear()
                _NOT.clear()
            _NOT2[c] = r
        _NOT[id(c)] = (c, r)
        return r
    return ("not", c)


def and_(cs):
    out = []
    for c in cs:
        if c[0] == "and":
            out += c[1]
        elif c[0] == "true":
            continue
        elif c[0] == "false":
            return FALSE
        else:
            out.append(c)
    u = []
    for c in out:
        if c not in u:
            u.append(c)
    for c in u:
        if not_(c) in u:
            return FALSE
    if not u:
        return TRUE
    if len(u) == 1:
        return u[0]
    return ("and", tuple(sorted(u, key=repr)))


def or_(cs):
    out = []
    for c in cs:
        if c[0] == "or":
            out += c[1]
        elif c[0] == "false":
            continue
        elif c[0] == "true":
            return TRUE
        else:
            out.append(c)
    u = []
    for c in out:
        if c not in u:
            u.append(c)
    for c in u:
        if not_(c) in u:
            return TRUE
    if not u:
        return FALSE
    if len(u) == 1:
        return u[0]
    return ("or", tuple(sorted(u, key=repr)))


def cndshow(c):
    if c[0] == "cmp":
        return "%r %s 0" % (c[2], c[1])
    if c[0] == "b":
        return str(c[1]) if not isinstance(c[1], tuple) else ashow(c[1])
    if c[0] == "not":
        return "!(%s)" % cndshow(c[1])
    if c[0] in ("and", "or"):
        return "(" + (" && " if c[0] == "and" else " || ").join(cndshow(x) for x in c[1]) + ")"
    return c[0]


# ---- deep rewriting -----------------------------------------------------------
LEAF = {"lv", "rv", "bv", "u", "loc", "param", "this", "glob", "heap"}


def deep(x, f):
    """Rewrite atoms everywhere inside a value: f(atom) -> Poly or None (descend)."""
    memo = {}
    return _deep(x, f, memo)


def _deep(x, f, memo):
    if isinstance(x, Poly):
        k = id(x)
        if k in memo:
            return memo[k][1]
        out = None
        sub = {}
        changed = False
        for a in set(x.atoms()):
            r = f(a)
            if r is None:
                r = _deep_atom(a, f, memo)
            if r is not None:
                sub[a] = r
                changed = True
        out = x.subst(lambda a: sub.get(a)) if changed else x
        memo[k] = (x, out)
        return out
    if isinstance(x, tuple):
        k = id(x)
        m = memo.get(k)
        if m is not None and m[0] is x:
            return m[1]
        if x and x[0] in ("cmp", "b", "and", "or", "not", "true", "false") and _is_cond(x):
            new = _deep_cond(x, f, memo)
        else:
            new = tuple(_deep(y, f, memo) for y in x)
            new = new if any(p is not q for p, q in zip(new, x)) else x
        memo[k] = (x, new)
        return new
    g = getattr(x, "deep", None)
    if g is not None:
        return g(lambda y: _deep(y, f, memo))
    return x


def _is_cond(x):
    return (x[0] in ("true", "false") and len(x) == 1) or (x[0] == "cmp" and len(x) == 3 and isinstance(x[2], Poly)) or (x[0] in ("b", "not") and len(x) == 2) or (x[0] in ("and", "or") and len(x) == 2)


def deep_cond(c, f):
    return _deep_cond(c, f, {})


def _deep_cond(c, f, memo):
    if c[0] == "cmp":
        d = _deep(c[2], f, memo)
        return cmp_(c[1], d, ZERO) if d is not c[2] else c
    if c[0] in ("not", "and", "or"):
        k = ("c", id(c))
        m = memo.get(k)
        if m is not None:
            return m[1]
        if c[0] == "not":
            d = _deep_cond(c[1], f, memo)
            r = c if d is c[1] else not_(d)
        else:
            ds = [_deep_cond(x, f, memo) for x in c[1]]
            r = c if all(p is q for p, q in zip(ds, c[1])) else (and_ if c[0] == "and" else or_)(ds)
        memo[k] = (c, r)
        return r
    if c[0] == "b":
        a = c[1]
        if isinstance(a, tuple):
            r = f(a)
            if r is None:
                r = _deep_atom(a, f, memo)
            if r is not None:
                v = r.cval()
                if v is not None:
                    return TRUE if v else FALSE
                if len(r.t) == 1:
                    (m, k), = r.t.items()
                    if k == 1 and len(m) == 1 and m[0][1] == 1:
                        if m[0][0][0] == "bool":
                            return m[0][0][1]
                        return ("b", m[0][0])
                return cmp_("!=", r, ZERO)
        return c
    return c


def _deep_atom(a, f, memo):
    """New value of atom a after rewriting its components, or None if unchanged."""
    if a[0] in LEAF:
        return None
    k = ("a", id(a))
    m = memo.get(k)
    if m is not None:
        return m[1]
    r = _deep_atom1(a, f, memo)
    memo[k] = (a, r)
    return r


def _deep_atom1(a, f, memo):
    new = tuple(_deep(y, f, memo) if isinstance(y, (Poly, tuple)) or hasattr(y, "deep") else y for y in a)
    if all(p is q for p, q in zip(new, a)) or new == a:
        return None
    return remake(new)


def remake(a):
    if a[0] == "ite":
        return phi_poly(a[1], a[2], a[3])
    if a[0] == "inv":
        return a[1].inverse()
    if a[0] in ("max", "min"):
        return mk_ext(a[0], a[1], a[2])
    if a[0] == "sum":
        return sum_over(a[1], a[2], bvtop(a))
    if a[0] == "idiv":
        x, y = a[1].cval(), a[2].cval()
        if x is not None and y:
            q = abs(x) // abs(y)
            return Poly.const(q if (x >= 0) == (y >= 0) else -q)
    if a[0] == "mod":
        x, y = a[1].cval(), a[2].cval()
        if x is not None and y and x >= 0 and y > 0:
            return Poly.const(x % y)
    if a[0] == "bool":
        if a[1] == TRUE:
            return ONE
        if a[1] == FALSE:
            return ZERO
    return Poly.atom(a)


def mk_ext(n, a, b):
    if a == b:
        return a
    d = (a - b).cval()
    if d is not None:
        return a if (d > 0) == (n == "max") else b
    return Poly.atom((n,) + tuple(sorted((a, b), key=repr)))


def deep_path(p, f):
    return _deep(p, f, {})


def contains(x, pred):
    seen = set()
    stack = [x]
    while stack:
        y = stack.pop()
        if isinstance(y, Poly):
            if id(y) in seen:
                continue
            seen.add(id(y))
            for a in y.atoms():
                if pred(a):
                    return True
                if a[0] not in LEAF:
                    stack.extend(z for z in a if isinstance(z, (Poly, tuple)) or hasattr(z, "parts"))
        elif isinstance(y, tuple):
            if y and isinstance(y[0], str) and y[0] == "b" and len(y) == 2 and isinstance(y[1], tuple) and pred(y[1]):
                return True
            stack.extend(z for z in y if isinstance(z, (Poly, tuple)) or hasattr(z, "parts"))
        elif hasattr(y, "parts"):
            stack.extend(y.parts())
    return False


contains_path = contains


def bvheight(x):
    h = 0
    seen = set()
    stack = [x]
    while stack:
        y = stack.pop()
        if isinstance(y, Poly):
            if id(y) in seen:
                continue
            seen.add(id(y))
            stack.extend(y.atoms())
        elif isinstance(y, tuple):
            if len(y) == 2 and y[0] == "bv":
                if isinstance(y[1], int):
                    h = max(h, y[1])
            else:
                stack.extend(z for z in y if isinstance(z, (Poly, tuple)) or hasattr(z, "parts"))
        elif hasattr(y, "parts"):
            stack.extend(y.parts())
    return h


def bvtop(a):
    return bvheight(a[2])


def sum_over(n, d, h):
    """Sum of d over bound variable h in [0, n); loop-invariant factors pulled out."""
    b = ("bv", h)
    groups = {}
    for m, c in d.t.items():
        inv, var = [], []
        for a, p in m:
            (var if a == b or (a[0] not in LEAF and contains(a, lambda q: q == b)) else inv).append((a, p))
        groups.setdefault(tuple(var), {})[tuple(inv)] = c
    out = ZERO
    for var, co in groups.items():
        t = n if not var else Poly.atom(("sum", n, Poly({var: Fraction(1)})))
        out = out + Poly(co) * t
    return out


def phi_poly(c, a, b):
    if a == b:
        return a
    if c == TRUE:
        return a
    if c == FALSE:
        return b
    if c[0] == "and":
        r = a
        for x in reversed(c[1]):
            r = phi_poly(x, r, b)
        return r
    if c[0] == "or":
        r = b
        for x in reversed(c[1]):
            r = phi_poly(x, a, r)
        return r
    nc = not_(c)
    if repr(nc) < repr(c):
        c, a, b = nc, b, a
    a = assume(a, c, True)
    b = assume(b, c, False)
    if a == b:
        return a
    if c[0] == "cmp" and c[1] in ("<", "<="):
        d = c[2]
        # d < 0 ? a : b with d = x - y
        if b - a == d:
            return mk_ext("max", a, b)
        if a - b == d:
            return mk_ext("min", a, b)
    if c[0] == "cmp" and c[1] == "==":
        pass
    common = Poly({m: k for m, k in a.t.items() if b.t.get(m) == k})
    a, b = a - common, b - common
    return common + Poly.atom(("ite", c, a, b))


def assume(p, c, truth):
    """Simplify p knowing that condition c is true/false."""
    nc = not_(c)
    if not contains(p, lambda a: a[0] in ("ite", "bool") and (a[1] == c or a[1] == nc)):
        return p

    def f(a):
        if a[0] == "ite":
            if a[1] == c:
                return assume(a[2] if truth else a[3], c, truth)
            if a[1] == nc:
                return assume(a[3] if truth else a[2], c, truth)
        if a[0] == "bool" and a[1] == c:
            return ONE if truth else ZERO
        return None

    return deep(p, f)
