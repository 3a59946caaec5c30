"""Flow-sensitive abstract interpreter over the resolved AST.

One pass per function, all paths merged (no path enumeration, no solver):
values are polynomials over opaque atoms (sym.Poly), strings, pointers and
aggregates; calls to repository functions are analysed in context (inlined up
to a bound); loops are analysed once with a symbolic induction variable after
forgetting everything the body may write.  Clients observe element reads and
writes, calls and OpenMP constructs together with the guards, loops and call
stack in force.
"""
import re

import cxx

from sym import (FALSE, ONE, TRUE, ZERO, Poly, and_, ashow, cmp_, cndshow, contains, contains_path, deep, deep_cond, deep_path, bvheight, mk_ext, not_, or_, phi_poly, pshow, sum_over)


class Str:
    __slots__ = ("s",)

    def __init__(self, s):
        self.s = s

    def __eq__(self, o):
        return isinstance(o, Str) and o.s == self.s

    def __hash__(self):
        return hash(("Str", self.s))

    def __repr__(self):
        return "%r" % self.s


class Ptr:
    """Address of path (an lvalue); off = element offset when it points into an array."""
    __slots__ = ("path", "off")

    def __init__(self, path, off=None):
        self.path = path
        self.off = off

    def deep(self, g):
        p, o = g(self.path), g(self.off) if self.off is not None else None
        return self if p is self.path and o is self.off else Ptr(p, o)

    def parts(self):
        return (self.path,) + ((self.off,) if self.off is not None else ())

    def __eq__(self, o):
        return isinstance(o, Ptr) and (o.path, o.off) == (self.path, self.off)

    def __hash__(self):
        return hash((self.path, self.off))

    def __repr__(self):
        return "&%s%s" % (pshow(self.path), "+%r" % self.off if self.off is not None else "")


class Ref:
    """Value of a (non-scalar) object living at path."""
    __slots__ = ("path",)

    def __init__(self, path):
        self.path = path

    def deep(self, g):
        p = g(self.path)
        return self if p is self.path else Ref(p)

    def parts(self):
        return (self.path,)

    def __eq__(self, o):
        return isinstance(o, Ref) and o.path == self.path

    def __hash__(self):
        return hash(("Ref", self.path))

    def __repr__(self):
        return "obj(%s)" % pshow(self.path)


class ListV:
    __slots__ = ("items",)

    def __init__(self, items):
        self.items = tuple(items)

    def deep(self, g):
        p = g(self.items)
        return self if p is self.items else ListV(p)

    def parts(self):
        return self.items

    def __eq__(self, o):
        return isinstance(o, ListV) and o.items == self.items

    def __hash__(self):
        return hash(("ListV", self.items))

    def __repr__(self):
        return "[%s]" % ", ".join(map(repr, self.items))


class Obj:
    """Aggregate value with named fields."""
    __slots__ = ("f", "ty")

    def __init__(self, f, ty=""):
        self.f = f
        self.ty = ty

    def deep(self, g):
        return Obj({k: g(v) for k, v in self.f.items()}, self.ty)

    def parts(self):
        return tuple(v for v in self.f.values() if v is not None)

    def __eq__(self, o):
        return isinstance(o, Obj) and o.f == self.f

    def __hash__(self):
        return hash(tuple(sorted((k, v) for k, v in self.f.items())))

    def __repr__(self):
        return "%s{%s}" % (self.ty, ", ".join("%s=%r" % kv for kv in self.f.items()))


class Lam:
    __slots__ = ("node", "fr", "this")

    def __init__(self, node, fr, this):
        self.node = node
        self.fr = fr
        self.this = this

    def __repr__(self):
        return "lambda@%s" % self.node["p"]


class Opq:
    """Opaque non-numeric value: result of an unmodelled call."""
    __slots__ = ("name", "args", "uid")

    def __init__(self, name, args=(), uid=0):
        self.name = name
        self.args = tuple(args)
        self.uid = uid

    def deep(self, g):
        p = g(self.args)
        return self if p is self.args else Opq(self.name, p, self.uid)

    def parts(self):
        return tuple(v for v in self.args if v is not None)

    def __eq__(self, o):
        return isinstance(o, Opq) and (o.name, o.args, o.uid) == (self.name, self.args, self.uid)

    def __hash__(self):
        return hash((self.name, self.args, self.uid))

    def __repr__(self):
        return "%s(%s)" % (self.name, ", ".join(map(repr, self.args)))


class Cond:
    """Boolean value."""
    __slots__ = ("c",)

    def __init__(self, c):
        self.c = c

    def deep(self, g):
        p = g(self.c)
        return self if p is self.c else Cond(p)

    def parts(self):
        return (self.c,)

    def __eq__(self, o):
        return isinstance(o, Cond) and o.c == self.c

    def __hash__(self):
        return hash(("Cond", self.c))

    def __repr__(self):
        return "bool(%s)" % cndshow(self.c)


SPECIAL = ("ver", "reg", "cp")

NUMERIC = re.compile(r"^(const )?(unsigned |signed )?(int|long|double|float|char|short|bool|std::size_t|size_t|long long|unsigned)( const)?( ?&)?$|^(const )?unsigned (int|long|char|long long|short)$|^(const )?long long$")
INT_T = re.compile(r"^(const )?(unsigned |signed )?(int|long|short|char|long long|unsigned|bool)( int)?$")


def strip_ty(t):
    t = t.strip()
    while True:
        o = t
        t = re.sub(r"(\s*[&]+)$", "", t).strip()
        t = re.sub(r"^const\s+", "", t)
        t = re.sub(r"\s+const$", "", t)
        if t == o:
            return t


STATES = {}


def fingerprint(regs):
    """Name of an array state that depends only on what was written, not on how."""
    import hashlib
    import spec
    regs = tuple(spec.canon(u) for u in regs)
    t = "\n".join(sorted(spec.render(u) for u in regs))
    d = hashlib.blake2b(t.encode(), digest_size=6).hexdigest()
    STATES.setdefault(d, regs)
    return d


class Frame:
    _n = 0

    ids = {}

    def __init__(self, fn, this, parent=None, callnode=None):
        # deterministic per call path, so that facts cached for a call site stay valid
        key = (parent.id if parent else 0, fn.key if fn else "lambda", tuple(callnode["p"]) if callnode and "p" in callnode else None)
        self.id = Frame.ids.setdefault(key, len(Frame.ids) + 1)
        self.fn = fn
        self.this = this
        self.env = {}       # decl id -> path (storage) or ("alias", path)
        self.parent = parent
        self.callnode = callnode
        self.rets = []
        self.exits = []     # (condition, store) at each return
        self.g0 = 0
        self.l0 = 0
        self.depth = parent.depth + 1 if parent else 0
        self.lex = None     # lexical parent frame for lambdas
        self.want_lv = False

    def lookup(self, i):
        f = self
        while f is not None:
            if i in f.env:
                return f.env[i]
            f = f.lex
        return None

    def stack(self):
        out = []
        f = self
        while f is not None:
            out.append("%s:%d" % (f.fn.qn if f.fn else "<lambda>", f.callnode["p"][0] if f.callnode else 0))
            f = f.parent
        return out


def hv(v, lv=None):
    """A call argument as a term."""
    if v is None:
        return Ref(lv) if lv is not None else None
    try:
        hash(v)
    except TypeError:
        return "?"
    return v if not isinstance(v, Lam) else "lambda"


def rwkey(fn):
    return "%s/%d" % (fn.qn, len(fn.params))


def rel(p):
    return ".".join(x if isinstance(x, str) else "[]" for x in p)


def rwname(p):
    return ".".join((p[0][-1],) + tuple(p[1:]))


def unres_ld(x):
    if isinstance(x, Poly) and len(x.t) == 1:
        (m, c), = x.t.items()
        if len(m) == 1 and m[0][0][0] == "ld" and isinstance(m[0][0][2], tuple) and m[0][0][2][0] in ("st", "acc"):
            return True
    return False


class Loop:
    __slots__ = ("atom", "lo", "hi", "step", "node", "kind", "guards", "outer")

    def __init__(self, atom, lo, hi, step, node, kind):
        self.atom = atom
        self.lo = lo      # inclusive lower bound (Poly) or None
        self.hi = hi      # exclusive upper bound (Poly) or None
        self.step = step
        self.node = node
        self.kind = kind

    def __repr__(self):
        return "%s in [%r, %r)" % (ashow(self.atom) if self.atom else "loop", self.lo, self.hi)


class Interp:
    """Override hooks: read, write, call, omp, ret."""

    max_depth = 12
    opaque = ()            # qualified names never inlined
    type_roots = {}        # class name -> path root: singletons by type
    smart = ("std::unique_ptr", "std::shared_ptr", "std::optional", "absl::StatusOr")

    def __init__(self, prog):
        self.prog = prog
        self.store = {}
        self.guards = []      # list of conditions
        self.loops = []       # list of Loop
        self.ompstack = []    # list of omp directive nodes (enclosing)
        self.fr = None
        self.dead = None      # None, or 'return'/'break'/'continue'/'throw'
        self.dry = 0
        self.held = set()
        self.wlog = []        # stacks of written-path sets
        self._u = 0
        self._loopw = {}
        self.recursion = []
        self.escaped = []       # variables that callbacks handed to other code may assign
        self.lstack = []
        self.rv_dom = {}
        self.loop_atoms = {}
        self.nodes = 0
        self.want = set()
        self.st_memo = {}

    # ---- hooks ------------------------------------------------------------
    def on_read(self, path, node): pass
    def on_write(self, path, val, node, op="="): pass
    def on_call(self, name, node, args, obj): return None
    def on_omp(self, node, phase): pass
    def on_branch(self, node, cond): pass
    def on_loop(self, loop, phase): pass
    def on_transition(self, L, loop, arrs, scal, pre, end, brk): pass
    def on_return(self, val, node): pass

    # ---- helpers ----------------------------------------------------------
    def ty(self, node):
        f = self.fr
        while f.fn is None:
            f = f.lex
        i = node.get("t")
        return f.fn.types[i] if i is not None else ""

    def types(self):
        f = self.fr
        while f.fn is None:
            f = f.lex
        return f.fn.types

    def loc(self, node):
        f = self.fr
        while f.fn is None:
            f = f.lex
        return "%s:%d" % (f.fn.file, node["p"][0] if node and "p" in node else f.fn.line)

    def fname(self):
        f = self.fr
        while f.fn is None:
            f = f.lex
        return f.fn.qn

    def fresh(self, why="", args=()):
        self._u += 1
        if args:
            return Poly.atom(("u", "%s%d" % (why, self._u), args))
        return Poly.atom(("u", "%s%d" % (why, self._u)))

    def is_numeric(self, t):
        t = strip_ty(t)
        return t in ("int", "double", "float", "bool", "long", "unsigned int", "unsigned long", "char", "short",
                     "long long", "unsigned long long", "unsigned char", "signed char", "unsigned short", "long double") or t in self.prog.enums

    # ---- store ------------------------------------------------------------
    def state_list(self, arr):
        """All that happened to the elements of an array so far, as an update list."""
        regs = self.store.get(("reg",) + arr, ())
        ks = self.entries(arr)
        if not ks:
            return regs
        return regs + tuple(("u", (), k, self.store[k]) for k in sorted(ks, key=repr))

    def stref(self, arr, regs=None):
        """Fingerprint of an array's contents: 0 if untouched."""
        if regs is None:
            regs = self.state_list(arr)
        if not regs:
            return self.version(arr)
        m = self.st_memo.get(id(regs))
        if m is None or m[0] is not regs:
            d = fingerprint(regs)
            m = self.st_memo[id(regs)] = (regs, ("st", d))
        return m[1]

    def ver_of(self, path):
        i = self._arr(path)
        v = self.stref(path[:i])
        if v == 0 or isinstance(v, tuple):
            return v
        for j in range(i - 1, 0, -1):
            regs = self.store.get(("reg",) + path[:j])
            if regs and any(u[0] in ("eff", "ite") for u in regs):
                return self.stref(path[:j], regs)
        return 1

    def is_private(self, path):
        return path[0][0] == "loc"

    def load(self, path, node, numeric=True):
        if not self.dry:
            self.on_read(path, node)
        v = self.store.get(path)
        if v is not None:
            return v
        # field of an aggregate value held at a prefix
        for n in range(len(path) - 1, 0, -1):
            pv = self.store.get(path[:n])
            if isinstance(pv, Obj):
                cur = pv
                for s in path[n:]:
                    if isinstance(cur, Obj) and isinstance(s, str) and s in cur.f:
                        cur = cur.f[s]
                    else:
                        cur = None
                        break
                if cur is not None:
                    return cur
            if isinstance(pv, Ref):
                return self.load(pv.path + path[n:], node, numeric)
            if isinstance(pv, ListV) and len(path) == n + 1 and isinstance(path[n], tuple) and path[n][0] == "[]" and len(path[n]) == 2:
                c = path[n][1].cval()
                if c is not None and 0 <= c < len(pv.items):
                    return pv.items[int(c)]
        if numeric:
            return self.resolve(path)
        return Ref(path)

    def resolve(self, path):
        """Value of an element that has no exact entry in the store."""
        i = self._arr(path)
        if i == len(path):
            return self.entry_value(path)
        arr = path[:i]
        st = self.store
        rest = path[i:]
        for k in self.entries(arr):
            if not self.apart(k[i:], rest, ()):
                return Poly.atom(("ld", path, self.stref(arr)))
        return self.resolve_regs(path, i, st.get(("reg",) + arr, ()))

    def resolve_regs(self, path, i, regs):
        rest = path[i:]
        for j in range(len(regs) - 1, -1, -1):
            u = regs[j]
            if u[0] == "acc":
                return Poly.atom(("ld", path, u))
            if u[0] == "eff":
                if u[1] and self.apart(u[1], rest, ()):
                    continue
                return Poly.atom(("ld", path, self.stref(path[:i], regs)))
            if u[0] == "ite":
                a = self.resolve_regs(path, i, regs[:j] + u[2])
                b = self.resolve_regs(path, i, regs[:j] + u[3])
                if unres_ld(a) or unres_ld(b):
                    return Poly.atom(("ld", path, self.stref(path[:i], regs)))
                return self.num(self.phi(u[1], a, b))
            if u[0] == "resized":
                return Poly.atom(("ld", path, ("new",)))
            if u[0] == "all":
                return u[1]
            if u[0] == "map":
                if len(rest) == 1 and len(rest[0]) == 1 + len(u[1]):
                    sub = dict(zip(u[1], rest[0][1:]))
                    return deep(u[2], lambda a: sub.get(a)) if isinstance(u[2], Poly) else u[2]
                return Poly.atom(("ld", path, self.stref(path[:i], regs)))
            if u[0] == "copy":
                return self.resolve_regs(u[1] + rest, len(u[1]), u[2])
            r = self.unify(u, rest, i)
            if r == "miss":
                continue
            if r is None:
                return Poly.atom(("ld", path, self.stref(path[:i], regs)))
            val = u[3]
            if r and isinstance(val, (Poly, Cond)):
                val = deep(val, lambda a: r.get(a))
            if val is None:
                return Poly.atom(("ld", path, self.stref(path[:i], regs)))
            return val if isinstance(val, (Poly, Cond)) else self.num(val)
        return self.entry_value(path)

    def entry_value(self, path):
        """Value not written so far: what it was on entry (through copies)."""
        for n in range(len(path), 0, -1):
            c = self.store.get(("cp",) + path[:n])
            if c is not None:
                return self.cp_value(c, path, n)
        if path[-1] == "#size":
            return Poly.atom(("size", path[:-1], self.ver_of(path[:-1])))
        return Poly.atom(("ld", path, self.ver_of(path)))

    def cp_value(self, c, path, n):
        if c[0] == "phi":
            a = self.cp_value(c[2], path, n) if c[2] else Poly.atom(("ld", path, 0))
            b = self.cp_value(c[3], path, n) if c[3] else Poly.atom(("ld", path, 0))
            return self.num(self.phi(c[1], a, b))
        return Poly.atom(("ld", c[0] + path[n:], c[1]))

    def apart(self, r1, r2, vars_):
        """The two element suffixes certainly denote different elements."""
        if len(r1) != len(r2):
            for a, b in zip(r1, r2):
                if isinstance(a, str) and isinstance(b, str) and a != b:
                    return True
            return False
        for a, b in zip(r1, r2):
            if isinstance(a, str) or isinstance(b, str):
                if a != b and isinstance(a, str) and isinstance(b, str):
                    return True
                continue
            if a[0] == "[]" and b[0] == "[]" and len(a) == len(b):
                for x, y in zip(a[1:], b[1:]):
                    if isinstance(x, Poly) and isinstance(y, Poly):
                        c = (x - y).cval()
                        if c is not None and c != 0:
                            return True
        return False

    def unify(self, u, rest, i):
        """Solve update path == rest for the update's bound variables: {var: Poly}, "miss" or None."""
        vars_ = dict(u[1])
        up = u[2][i:]
        if len(up) != len(rest):
            for a, b in zip(up, rest):
                if isinstance(a, str) and isinstance(b, str) and a != b:
                    return "miss"
            return None
        eqs = []
        for a, b in zip(up, rest):
            if isinstance(a, str) or isinstance(b, str):
                if a != b:
                    return "miss" if isinstance(a, str) and isinstance(b, str) else None
                continue
            if len(a) != len(b):
                return None
            for x, y in zip(a[1:], b[1:]):
                if not isinstance(x, Poly) or not isinstance(y, Poly):
                    if x != y:
                        return None
                    continue
                eqs.append((x, y))
        sol = {}
        for x, y in eqs:
            todo = []
            r = y
            for m, c in x.t.items():
                bv = [a for a, p in m if a in vars_]
                if not bv:
                    r = r - Poly({m: c})
                elif len(bv) == 1 and all(p == 1 for a, p in m if a in vars_):
                    todo.append((bv[0], Poly({tuple(z for z in m if z[0] != bv[0]): c})))
                else:
                    return None
            # highest-degree strides first; unit stride takes the remainder
            todo.sort(key=lambda z: -sum(p for _, p in list(z[1].t)[0]))
            for var, co in todo:
                (cm, cc), = co.t.items()
                if any(v2 == var for v2, _ in todo if _ is not co):
                    return None
                q = {}
                if not cm and cc == 1:
                    q = dict(r.t)
                else:
                    for m, c in r.t.items():
                        d = dict(m)
                        if all(d.get(a, 0) >= p for a, p in cm):
                            for a, p in cm:
                                d[a] -= p
                                if not d[a]:
                                    del d[a]
                            cq = c / cc
                            if cq.denominator != 1:
                                return None
                            q[tuple(sorted(d.items(), key=lambda z: repr(z[0])))] = cq
                qp = Poly(q)
                r = r - qp * co
                if var in sol and sol[var] != qp:
                    return None
                sol[var] = qp
            if r != ZERO:
                if not todo and r.cval() is not None:
                    return "miss"
                return None
        if set(sol) != set(vars_):
            return None
        for var, q in sol.items():
            n = vars_[var]
            d = self.in_range(q, n)
            if d is False:
                return "miss"
            if d is None:
                return None
        return sol

    def in_range(self, q, n):
        """0 <= q < n: True, False or None (unknown)."""
        c = q.cval()
        if c is not None:
            if c < 0:
                return False
            nc = n.cval() if n is not None else None
            if nc is not None:
                return c < nc
            return True if self.assume_nonempty and c == 0 else None
        if n is None:
            return None
        d = (q - n).cval()
        if d is not None and d >= 0:
            return False
        lo, hi = self.interval(q)
        if lo is None or hi is None:
            return None
        l, h = lo.cval(), (hi - n).cval()
        if l is not None and h is not None and l >= 0 and h <= 0:
            return True
        if (h is not None and (lo - n).cval() is not None and (lo - n).cval() >= 0) or (hi.cval() is not None and hi.cval() <= 0):
            return False
        return None

    assume_nonempty = True

    def interval(self, q):
        """[lo, hi) of a polynomial of the form loopvar + c."""
        vs = [a for a in q.atoms() if a[0] in ("lv", "rv")]
        if len(vs) != 1:
            return None, None
        a = vs[0]
        cr = q.coeff(a)
        if cr is None or cr[0] != ONE:
            return None, None
        if a[0] == "rv":
            n = self.rv_dom.get(a)
            if n is None:
                return None, None
            return cr[1], cr[1] + n
        l = self.loop_atoms.get(a)
        if l is None or l.lo is None or l.hi is None:
            return None, None
        return cr[1] + l.lo, cr[1] + l.hi

    def version(self, path):
        st = self.store
        n = 0
        for i in range(1, len(path) + 1):
            n += st.get(("ver",) + path[:i], 0)
            if i < len(path) and isinstance(path[i], tuple) and path[i][0] == "[]":
                break
        return n

    @staticmethod
    def _arr(path):
        for i, s in enumerate(path):
            if isinstance(s, tuple) and s[0] == "[]":
                return i
        return len(path)

    def entries(self, arr):
        """Store keys of single elements of array arr."""
        n = len(arr)
        return [k for k in self.store if len(k) > n and k[0] not in SPECIAL and k[:n] == arr and isinstance(k[n], tuple) and k[n][0] == "[]"]

    def drop(self, path):
        """Remove every fact at or below path."""
        n = len(path)
        st = self.store
        for k in [k for k in st if (k[:n] == path if k[0] not in SPECIAL else k[0] != "ver" and k[1:n + 1] == path)]:
            del st[k]

    def kill(self, path, why=("?",)):
        """The contents at path changed in a way that is only known by its cause."""
        a = path[:self._arr(path)]
        vw = tuple(x for x in a if isinstance(x, tuple) and x[0] == "view")
        if vw:
            a = tuple(x for x in a if not (isinstance(x, tuple) and x[0] == "view"))
            idx = ()
            why = ("at", vw) + tuple(why)
        else:
            idx = path[len(a):]
        n = len(a)
        regs = list(self.store.get(("reg",) + a, ()))
        cp = self.store.get(("cp",) + a)
        sub = []
        for k, v in self.store.items():
            if k[0] in SPECIAL:
                if k[0] == "reg" and len(k) > n + 1 and k[1:n + 1] == a:
                    sub.append(("u", (), k[1:], Opq("state", (self.stref(k[1:]),))))
            elif k[:n] == a and (len(k) > n or not isinstance(v, (Ref, Ptr, Lam))):
                sub.append(("u", (), k, v))
        sub.sort(key=repr)
        self.drop(a)
        if cp is not None:
            self.store[("cp",) + a] = cp
        self.store[("ver",) + a] = self.store.get(("ver",) + a, 0) + 1
        self.store[("reg",) + a] = tuple(regs + sub) + (("eff", idx, tuple(why)),)
        for w in self.wlog:
            w.add(a if a != path else path)

    def flush(self, arr, keys):
        regs = self.store.get(("reg",) + arr, ())
        add = []
        for k in keys:
            add.append(("u", (), k, self.store.pop(k)))
        self.store[("reg",) + arr] = regs + tuple(add)

    def write(self, path, val, node, op="="):
        if not self.dry:
            self.on_write(path, val, node, op)
        for w in self.wlog:
            w.add(path)
        i = self._arr(path)
        if i < len(path):
            arr = path[:i]
            rest = path[i:]
            fl = []
            for k in self.entries(arr):
                if k == path:
                    continue
                if len(k) > len(path) and k[:len(path)] == path:
                    self.store.pop(k)
                    continue
                if not self.apart(k[i:], rest, ()):
                    fl.append(k)
            if fl:
                if path in self.store:
                    fl.append(path)
                self.flush(arr, fl)
            if val is not None:
                self.store[path] = val
            else:
                self.store[path] = self.fresh("w", (op,))
            return
        self.drop(path)
        if val is not None:
            self.store[path] = val
            if not isinstance(val, (Poly, Cond)):
                self.store[("ver",) + path] = self.store.get(("ver",) + path, 0) + 1
        else:
            self.store[("ver",) + path] = self.store.get(("ver",) + path, 0) + 1
            self.store[("reg",) + path] = (("eff", (), ("write", op)),)

    # ---- functions ---------------------------------------------------------
    final_join = False
    error_guards = True    # keep "no error so far" among the guards
    anon_params = False

    def run(self, fn, this=("this",), args=None):
        """Analyse fn as an entry point."""
        fr = Frame(fn, (this,) if isinstance(this[0], str) else this)
        self.fr = fr
        for i, p in enumerate(fn.params):
            if args and i in args:
                a = args[i]
                if isinstance(a, tuple):
                    fr.env[p["id"]] = a
                    continue
                path = (("loc", fr.id, p["id"], p["n"]),)
                fr.env[p["id"]] = path
                self.store[path] = a
                continue
            root = self.root_for(fn.types[p["t"]])
            fr.env[p["id"]] = root if root else (("param", "arg%d" % i if self.anon_params else p["n"]),)
        if fn.ctor:
            self.ctor_inits(fn, fr)
        self.stmt(fn.body)
        if self.final_join:
            self.join(fr.exits, not self.dead)
        self.dead = None
        self.top = fr
        return fr.rets

    def ctor_inits(self, fn, fr):
        for i in fn.inits:
            if "f" not in i:
                continue
            e = i["e"]
            path = fr.this + (i["f"],)
            root = self.field_root(fn.cls, i["f"])
            if root:
                continue
            v = self.rv(e)
            self.write(path, v, e if e and "p" in e else {"p": [fn.line, 0]})

    def field_root(self, cls, f):
        r = self.prog.records.get(cls)
        if r:
            for x in r["fields"]:
                if x["n"] == f:
                    return self.root_for(x["ty"])
        return None

    def root_for(self, t):
        if t is None:
            return None
        return self.type_roots.get(strip_ty(t).rstrip("*").strip())

    def invoke(self, fn, this, args, node, lam=None):
        """Inline call. args: list of (value, lvalue-path or None)."""
        fr = Frame(fn if lam is None else None, this, self.fr, node)
        if lam is not None:
            fr.lex = lam.fr
            params, body = lam.body["params"], lam.body.get("body")
            types = self._types_of(lam.fr)
        else:
            params, body, types = fn.params, fn.body, fn.types
        for i, p in enumerate(params):
            if i < len(args):
                v, lv = args[i]
            elif "def" in p:
                v, lv = self.rv(p["def"]), None
            else:
                v, lv = self.fresh("arg"), None
            t = types[p["t"]]
            isref = t.rstrip().endswith("&")
            root = self.root_for(t)
            if root is not None and (lv is None or lv[0][0] != "loc"):
                fr.env[p["id"]] = root
            elif isref and lv is not None:
                fr.env[p["id"]] = lv
            elif isinstance(v, Ref) and lv is not None and isref:
                fr.env[p["id"]] = v.path
            else:
                path = (("loc", fr.id, p["id"], p["n"]),)
                fr.env[p["id"]] = path
                if v is not None:
                    self.store[path] = v
        saved = (self.fr, self.dead, len(self.guards))
        if node is not None and id(node) in self.want:
            self.want.discard(id(node))
            fr.want_lv = True
        self.fr = fr
        fr.g0 = len(self.guards)
        fr.l0 = len(self.lstack)
        self.dead = None
        if lam is None and fn.ctor:
            self.ctor_inits(fn, fr)
        if body is not None:
            self.stmt(body)
        self.join(fr.exits, not self.dead)
        self.fr, self.dead, ng = saved
        # guards that fell out of early returns are not valid in the caller
        del self.guards[ng:]
        return self.merge_rets(fr)

    def _types_of(self, fr):
        while fr.fn is None:
            fr = fr.lex
        return fr.fn.types

    def merge_rets(self, fr):
        vals = [(and_(r[0]), r[1]) for r in fr.rets if r[1] is not None]
        if not vals:
            return None
        vals = self.reduce_conds(vals)
        out = vals[-1][1]
        for g, v in reversed(vals[:-1]):
            out = self.phi(g, v, out)
        return out

    def phi(self, cond, a, b):
        if a == b:
            return a
        if cond == TRUE:
            return a
        if cond == FALSE:
            return b
        if isinstance(a, Cond) and isinstance(b, Cond):
            return Cond(or_([and_([cond, a.c]), and_([not_(cond), b.c])]))
        if isinstance(a, (Poly, Cond)) and isinstance(b, (Poly, Cond)):
            return phi_poly(cond, self.num(a), self.num(b))
        return Opq("phi", (Cond(cond), a, b))

    # ---- statements ---------------------------------------------------------
    def stmt(self, s):
        if s is None or self.dead:
            return
        k = s["k"]
        m = getattr(self, "s_" + k, None)
        if m:
            m(s)
        elif k in EXPR_KINDS or k[0] == "?":
            self.rv(s, discard=True)
            if self.is_noreturn(s):
                self.dead = "throw"
        else:
            raise AssertionError("stmt kind " + k)

    def is_noreturn(self, s):
        k = s.get("k")
        if k == "throw":
            return True
        if k in ("call", "mcall") and s.get("qn") in ("std::abort", "abort", "exit", "std::exit", "std::terminate"):
            return True
        # LOG(FATAL) << ...
        x = s
        while x.get("k") in ("mcall", "opcall"):
            x = x["obj"] if x["k"] == "mcall" else x["args"][0]
        return x.get("k") in ("ctor", "cast", "init") and "LogMessageFatal" in (self.ty(x) or "")

    def s_block(self, s):
        for c in s["c"]:
            if self.dead:
                return
            self.stmt(c)

    def s_null(self, s):
        pass

    def s_decl(self, s):
        for v in s["v"]:
            self.declare(v)

    def declare(self, v):
        t = self.types()[v["t"]]
        path = (("loc", self.fr.id, v["id"], v["n"]),)
        init = v.get("init")
        if t.rstrip().endswith("&") and init is not None:
            lv = self.lv(init)
            root = self.root_for(t)
            if root is not None:
                self.fr.env[v["id"]] = root
            elif lv is not None:
                self.fr.env[v["id"]] = lv
            else:
                self.fr.env[v["id"]] = path
                self.store[path] = self.rv(init)
        else:
            self.fr.env[v["id"]] = path
            val = self.rv(init) if init is not None else None
            for b in ("bind",):
                pass
            self.kill_quiet(path)
            if not self.init_object(path, val, t):
                if val is not None:
                    self.store[path] = val
                    if isinstance(val, Opq) and "std::vector<std::" in t and "string" in t and init.get("k") in ("mcall", "call"):
                        # pieces of a text: they depend on how it was taken apart
                        self.store[("reg",) + path] = (("eff", (), ("set", hv(val))),)
            for w in self.wlog:
                w.add(path)
            if not self.dry:
                self.on_decl(v, path, val)
        if "bind" in v:
            for i, b in enumerate(v["bind"]):
                self.fr.env[b["id"]] = self.fr.env[v["id"]] + (("bind", i),)

    def on_decl(self, v, path, val): pass

    VIEWISH = ("Eigen::Map", "Eigen::Ref", "span<", "Block<", "iterator", "*", "function<", "string_view", "Span<", "CwiseBinaryOp", "ArrayWrapper", "auto", "unique_ptr", "shared_ptr", "initializer_list")

    def init_object(self, path, val, t):
        """Give a container or record object at path the value val. True if handled."""
        t = strip_ty(t)
        if any(x in t for x in self.VIEWISH):
            return False
        if isinstance(val, Ref):
            if self.is_numeric(t) or "basic_string" in t or t.endswith("string"):
                return False
            self.copy_object(path, val.path)
            return True
        if isinstance(val, Opq):
            n = val.name
            if n.startswith("ctor:") and (n[5:] in self.prog.records) and not val.args:
                self.default_fields(path, n[5:])
                return True
            f = self.fill_of(val)
            if f is not None:
                sz, x = f
                if x is not None:
                    self.store[("reg",) + path] = (("all", x),)
                if sz is not None:
                    self.store[path + ("#size",)] = sz
                self.set_dims(path, val)
                return True
            if "Eigen" in t:
                return self.map_assign(path, val, None)
        return False

    def default_fields(self, path, cls):
        r = self.prog.records.get(cls)
        for f in (r or {}).get("fields", []):
            ini = f.get("init")
            if ini is not None:
                if "cv" in ini:
                    self.store[path + (f["n"],)] = Poly.const(ini["cv"]) if strip_ty(f["ty"]) != "bool" else Cond(TRUE if ini["cv"] else FALSE)
            elif "vector<" in f["ty"] and "optional" not in f["ty"]:
                self.store[path + (f["n"], "#size")] = ZERO

    def fill_of(self, v):
        """(size, element) of a freshly filled container value."""
        n = v.name.split("<")[0]
        a = v.args
        if v.name.endswith("::Zero"):
            return (self.prod(a), ZERO)
        if v.name.endswith("::Ones"):
            return (self.prod(a), ONE)
        if v.name.endswith("::Constant") and a:
            return (self.prod(a[:-1]), a[-1])
        if n in ("std::vector", "ctor:std::vector"):
            if not a:
                return (ZERO, None)
            if len(a) == 1 and isinstance(a[0], Poly):
                return (a[0], ZERO)
            if len(a) == 2 and isinstance(a[0], Poly):
                return (a[0], a[1])
        if n in ("ctor:Eigen::Matrix", "ctor:Eigen::Array"):
            if len(a) == 1 and isinstance(a[0], Opq):
                return self.fill_of(a[0])
            if a and all(isinstance(x, Poly) for x in a):
                return (self.prod(a), None)
        return None

    def set_dims(self, path, val):
        if isinstance(val, Opq):
            while val.name.startswith("ctor:Eigen") and len(val.args) == 1 and isinstance(val.args[0], Opq):
                val = val.args[0]
            a = val.args[:-1] if val.name.endswith("::Constant") else val.args
        else:
            a = val
        if len(a) == 2 and all(isinstance(x, Poly) for x in a) and not (isinstance(val, Opq) and "vector" in val.name):
            self.store[path + ("#rows",)], self.store[path + ("#cols",)] = a

    def prod(self, a):
        if not a or not all(isinstance(x, Poly) for x in a):
            return None
        r = a[0]
        for x in a[1:]:
            r = r * x
        return r

    def copy_object(self, dst, src):
        if src[:len(dst)] == dst:
            return
        self.drop(dst)
        st = self.store
        n = len(src)
        add = {}
        for k, x in st.items():
            if k[0] in SPECIAL:
                if k[1:n + 1] == src:
                    if k[0] == "reg":
                        add[("reg",) + dst + k[n + 1:]] = tuple(self.rebase(u, src, dst) for u in x)
                    else:
                        add[(k[0],) + dst + k[n + 1:]] = x
            elif k[:n] == src:
                add[dst + k[n:]] = x
        st.update(add)
        st[("cp",) + dst] = (src, 0 if src[0][0] != "loc" else 1)

    def rebase(self, u, src, dst):
        if u[0] == "u" and u[2][:len(src)] == src:
            return ("u", u[1], dst + u[2][len(src):], u[3])
        return u

    def map_assign(self, path, val, node, n=None, off=None):
        """path[k] = val[k] for all k (elementwise Eigen expression)."""
        self._u += 1
        k = ("rv", ("map", 0), "k")
        if n is not None:
            self.rv_dom[k] = n
        x = self.elemval(val, [Poly.atom(k)])
        if x is None:
            return False
        if n is None:
            self.drop(path)
            self.store[("reg",) + path] = (("map", (k,), x),)
        else:
            arr = path
            ks = self.entries(arr)
            if ks:
                self.flush(arr, ks)
            regs = self.store.get(("reg",) + arr, ())
            self.store[("reg",) + arr] = regs + (("u", ((k, n),), arr + (("[]", Poly.atom(k) + off),), x),)
        for w in self.wlog:
            w.add(path + (("[]", ZERO),))
        return True

    def elemval(self, v, idx):
        if isinstance(v, Poly):
            return v
        if isinstance(v, Cond):
            return self.num(v)
        if isinstance(v, Ref):
            t = v.path[-1]
            if isinstance(t, tuple) and t[0] == "view" and t[1] == "transpose" and len(idx) == 1:
                return self.elemval(Ref(v.path[:-1]), idx)
            p = self.elem(v.path, idx)
            if p is None or any(isinstance(x, tuple) and x[0] == "view" for x in p):
                return None
            return self.num(self.load(p, None, True))
        if isinstance(v, Opq) and v.name.startswith("op") and len(v.args) == 2:
            op = v.name[2:]
            a, b = v.args
            if op in ("*", "/") and not (isinstance(a, Poly) or isinstance(b, Poly)):
                return None
            x, y = self.elemval(a, idx), self.elemval(b, idx)
            if x is None or y is None:
                return None
            if op == "+":
                return x + y
            if op == "-":
                return x - y
            if op == "*":
                return x * y
            if op == "/":
                return x * y.inverse()
        if isinstance(v, Opq) and v.name == "op-" and len(v.args) == 1:
            x = self.elemval(v.args[0], idx)
            return -x if x is not None else None
        f = self.fill_of(v) if isinstance(v, Opq) else None
        if f is not None and isinstance(f[1], Poly):
            return f[1]
        if isinstance(v, Opq) and v.args:
            m = v.name.split("::")[-1].split("<")[0]
            if v.name.startswith(("ctor:Eigen::", "Eigen::")) and m in ("Matrix", "Array") and len(v.args) == 1 and not isinstance(v.args[0], Poly):
                return self.elemval(v.args[0], idx)
            if m in ("cwiseProduct", "cwiseQuotient", "cwiseMax", "cwiseMin") and len(v.args) == 2:
                x, y = self.elemval(v.args[0], idx), self.elemval(v.args[1], idx)
                if x is None or y is None:
                    return None
                if m == "cwiseProduct":
                    return x * y
                if m == "cwiseQuotient":
                    return x * y.inverse()
                return Poly.atom((m[5:].lower(),) + tuple(sorted((x, y), key=repr)))
            if m in ("cwiseAbs", "cwiseSqrt", "cwiseInverse", "cwiseAbs2", "square", "sqrt", "array", "matrix", "eval", "abs", "inverse") and len(v.args) == 1:
                x = self.elemval(v.args[0], idx)
                if x is None:
                    return None
                if m in ("cwiseAbs2", "square"):
                    return x * x
                if m in ("cwiseInverse", "inverse"):
                    return x.inverse()
                if m in ("array", "matrix", "eval"):
                    return x
                return Poly.atom(("fn", m.replace("cwise", "").lower(), x))
        return None

    def unlist(self, p):
        """A literal list about to be changed element by element."""
        l = self.store.get(p)
        if isinstance(l, ListV):
            del self.store[p]
            for j, x in enumerate(l.items):
                self.store[p + (("[]", Poly.const(j)),)] = x
            self.store[p + ("#size",)] = Poly.const(len(l.items))

    def kill_quiet(self, path):
        self.drop(path)

    def s_if(self, s):
        if "init" in s:
            self.stmt(s["init"])
        if "var" in s:
            self.declare(s["var"])
        c = self.cond(s["cond"])
        self.on_branch(s, c)
        self.branch(c, lambda: self.stmt(s["then"]), lambda: self.stmt(s.get("else")))

    def branch(self, c, then, els):
        if c == TRUE:
            then()
            return
        if c == FALSE:
            els()
            return
        base = dict(self.store)
        g0 = list(self.guards)
        self.guards = g0 + [c]
        then()
        st1, dead1, g1 = self.store, self.dead, self.guards
        self.store = base
        self.dead = None
        self.guards = g0 + [not_(c)]
        els()
        st2, dead2, g2 = self.store, self.dead, self.guards
        if dead1 and dead2:
            self.dead = dead1 if dead1 == dead2 else "mixed"
            self.store = st2
            self.guards = g0
        elif dead1:
            self.store, self.dead = st2, None
            self.guards = g2
            if dead1 in ("error", "throw") and not self.error_guards:
                self.guards = g0 + g2[len(g0) + 1:]
        elif dead2:
            self.store, self.dead = st1, None
            self.guards = g1
            if dead2 in ("error", "throw") and not self.error_guards:
                self.guards = g0 + g1[len(g0) + 1:]
        else:
            self.dead = None
            # keep guards added inside a branch after its condition (early exits)
            self.guards = list(g0)
            e1 = and_(g1[len(g0) + 1:])
            e2 = and_(g2[len(g0) + 1:])
            if e1 != TRUE or e2 != TRUE:
                x = and_([or_([not_(c), e1]), or_([c, e2])])
                if x != TRUE:
                    self.guards.append(x)
            self.store = self.merge(c, st1, st2, base)

    def merge(self, c, a, b, base):
        if a is b:
            return a
        a, b = self.unlist_apart(a, b), self.unlist_apart(b, a)
        out = dict(a)
        keys = [k for k in a if k[0] != "reg"] + [k for k in b if k not in a and k[0] != "reg"]
        for k in keys:
            va, vb = a.get(k), b.get(k)
            if va == vb:
                continue
            if k[0] == "ver":
                out[k] = max(va or 0, vb or 0) + (1 if va and vb else 0)
                continue
            if k[0] == "cp":
                out[k] = ("phi", c, va, vb)
                continue
            if va is None or vb is None:
                # known on one side only
                if va is None:
                    va = self._init(k, a, vb)
                else:
                    vb = self._init(k, b, va)
                if va is None or vb is None:
                    out.pop(k, None)
                    continue
            out[k] = self.phi(c, va, vb)
        for k in sorted(set(x for x in a if x[0] == "reg") | set(x for x in b if x[0] == "reg"), key=repr):
            ra, rb = a.get(k, ()), b.get(k, ())
            if ra != rb:
                out[k] = self.merge_regs(c, k[1:], ra, rb, a, b)
        return out

    def unlist_apart(self, a, b):
        """Lists of a that b has taken apart."""
        ls = [k for k, v in a.items() if isinstance(v, ListV) and k not in b and k + ("#size",) in b]
        if not ls:
            return a
        saved, self.store = self.store, dict(a)
        for k in ls:
            self.unlist(k)
        r, self.store = self.store, saved
        return r

    def merge_regs(self, c, arr, ra, rb, a, b):
        n = 0
        while n < len(ra) and n < len(rb) and ra[n] == rb[n]:
            n += 1
        pre = ra[:n]
        ta, tb = list(ra[n:]), list(rb[n:])
        if any(u[0] != "u" for u in ta + tb):
            if len(ta) == 1 and len(tb) == 1 and ta[0][0] == tb[0][0] == "all":
                x = self.phi(c, ta[0][1], tb[0][1])
                return pre + (("all", x),)
            return pre + (("ite", c, tuple(ta), tuple(tb)),)
        out = []
        for u in ta:
            m = next((w for w in tb if w[1] == u[1] and w[2] == u[2]), None)
            ren = None
            if m is None:
                for w in tb:
                    ren = self.alpha(u, w)
                    if ren is not None:
                        m = w
                        break
            if m is not None:
                tb.remove(m)
                vb = m[3]
                if ren:
                    vb = deep(vb, lambda x: ren.get(x)) if isinstance(vb, (Poly, Cond)) else vb
                out.append(("u", u[1], u[2], self.phi(c, u[3], vb)))
            else:
                out.append(("u", u[1], u[2], self.phi(c, u[3], self.pre_value(u[2], pre))))
        for u in tb:
            out.append(("u", u[1], u[2], self.phi(c, self.pre_value(u[2], pre), u[3])))
        return pre + tuple(out)

    def alpha(self, u, w):
        """Renaming of w's bound variables to u's under which their paths agree."""
        if len(u[1]) != len(w[1]) or [n for _, n in u[1]] != [n for _, n in w[1]]:
            return None
        ren = {b: Poly.atom(a) for (a, _), (b, _) in zip(u[1], w[1])}
        return ren if deep_path(w[2], lambda x: ren.get(x)) == u[2] else None

    def pre_value(self, path, regs):
        return self.resolve_regs(path, self._arr(path), regs)

    def _init(self, k, st, other):
        if k[0][0] == "loc" and self._arr(k) == len(k):
            if k[0][1] == self.fr.id and isinstance(other, (Poly, Cond)):
                return Poly.atom(("undef",))
            return None
        if isinstance(other, (Poly, Cond)):
            saved = self.store
            self.store = st
            r = self.resolve(k)
            self.store = saved
            return r
        if isinstance(other, (Str, ListV, Obj, Opq)) and k[0][0] != "loc":
            return Ref(k)
        return None

    def s_switch(self, s):
        if "init" in s:
            self.stmt(s["init"])
        v = self.rv(s["cond"])
        vc = v if isinstance(v, Poly) else self.fresh("sw")
        groups = []   # (labels, stmts)
        cur = None

        def feed(x):
            nonlocal cur
            labels = []
            while x is not None and x["k"] in ("case", "default"):
                labels.append(x)
                x = x.get("sub")
            if labels:
                cur = (labels, [])
                groups.append(cur)
            if x is not None and cur is not None:
                cur[1].append(x)

        body = s["body"]
        for x in (body["c"] if body["k"] == "block" else [body]):
            feed(x)
        self.on_switch(s, v, groups)
        # evaluate groups as alternative branches; handle fallthrough by continuing
        base, g0 = self.store, list(self.guards)
        allc = []
        results = []
        has_default = False
        for i, (labels, stmts) in enumerate(groups):
            cs = []
            for l in labels:
                if l["k"] == "default":
                    has_default = True
                    cs = None
                    break
                lv = self.rv(l["e"])
                cs.append(cmp_("==", vc, lv) if isinstance(lv, Poly) else ("b", ("case", id(l))))
            c = or_(cs) if cs is not None else None
            if c is not None:
                allc.append(c)
            results.append([c, i])
        outs = []
        for c, i in results:
            cc = c if c is not None else and_([not_(x) for x in allc])
            if cc == FALSE:
                continue
            self.store = dict(base)
            self.dead = None
            self.guards = g0 + [cc]
            j = i
            self.enter(False)
            while j < len(groups) and not self.dead:
                for x in groups[j][1]:
                    self.stmt(x)
                    if self.dead:
                        break
                j += 1
            brk = self.lstack.pop()["brk"]
            if brk:
                self.join(brk, not self.dead)
                self.dead = None
            outs.append((cc, self.store, self.dead))
        if not has_default:
            cc = and_([not_(x) for x in allc])
            if cc != FALSE:
                outs.append((cc, dict(base), None))
        live = [(c, st) for c, st, d in outs if not d]
        self.guards = g0
        if not live:
            self.dead = outs[0][2] if outs else None
            self.store = outs[0][1] if outs else base
            return
        self.dead = None
        st = live[-1][1]
        for c, x in reversed(live[:-1]):
            st = self.merge(c, x, st, base)
        if len(live) < len(outs):
            self.guards.append(or_([c for c, _ in live]))
        self.store = st

    def on_switch(self, s, v, groups): pass

    def s_ret(self, s):
        v = None
        if s.get("e") is not None:
            p = self.lv(s["e"]) if self.fr.want_lv else None
            v = self.rv(s["e"]) if p is None else Ref(p)
        self.fr.rets.append((tuple(self.guards[self.fr.g0:]), v))
        if not self.dry:
            self.on_return(v, s)
        err = self.is_error(v)
        if not err:
            self.fr.exits.append((and_(self.guards[self.fr.g0:]), self.store))
            for l in self.lstack[self.fr.l0:]:
                l["ret"] = True
        self.dead = "error" if err else "return"

    def is_error(self, v):
        """An error status: the caller gets no usable state."""
        if isinstance(v, Opq) and v.name in ("absl::StatusOr", "ctor:absl::StatusOr") and len(v.args) == 1:
            v = v.args[0]
        if isinstance(v, Opq) and v.name.startswith("absl::") and v.name.endswith(("Error", "::status")):
            return True
        g = self.guards[-1] if len(self.guards) > self.fr.g0 else None
        if g is not None and g[0] == "not" and g[1][0] == "b" and isinstance(g[1][1], tuple) and g[1][1][:2] == ("q", "ok"):
            x = g[1][1][2]
            return v == x or (isinstance(v, Ref) and v.path == x) or (isinstance(v, Opq) and x in v.args)
        return False

    def s_break(self, s):
        if self.lstack:
            l = self.lstack[-1]
            l["brk"].append((and_(self.guards[l["g0"]:]), self.store))
        self.dead = "break"

    def s_continue(self, s):
        for l in reversed(self.lstack):
            if l["loop"]:
                l["cont"].append((and_(self.guards[l["g0"]:]), self.store))
                break
        self.dead = "continue"

    def enter(self, loop):
        self.lstack.append({"g0": len(self.guards), "brk": [], "cont": [], "ret": False, "loop": loop})

    @staticmethod
    def reduce_conds(entries):
        """Entries are tried in order, so a later condition need not repeat that the
        earlier ones failed."""
        out, failed = [], set()
        for c, x in entries:
            parts = c[1] if c[0] == "and" else (c,)
            r = and_([p for p in parts if p not in failed])
            out.append((r, x))
            failed.add(not_(r))
        return out

    def join(self, entries, live):
        """Merge the states of early exits with the fall-through state (if any)."""
        st = self.store if live else None
        for c, x in reversed(self.reduce_conds(entries)):
            st = x if st is None else self.merge(c, x, st, st)
        if st is not None:
            self.store = st

    def s_try(self, s):
        base = dict(self.store)
        g0 = list(self.guards)
        self.stmt(s["body"])
        st, d, g = self.store, self.dead, self.guards
        for h in s["h"]:
            self.store = dict(base)
            self.dead = None
            self.guards = g0 + [("b", ("catch", id(h)))]
            if "var" in h:
                self.declare(h["var"])
            self.stmt(h["body"])
            if not self.dead:
                if d:
                    st, d, g = self.store, None, list(g0)
                else:
                    st = self.merge(("b", ("catch", id(h))), self.store, st, base)
        self.store, self.dead, self.guards = st, d, g

    def s_omp(self, s):
        if not self.dry:
            self.on_omp(s, "enter")
        if s.get("body") is not None:
            self.ompstack.append(s)
            self.stmt(s["body"])
            self.ompstack.pop()
        if not self.dry:
            self.on_omp(s, "exit")

    # loops
    def loop_body(self, s, loop, body, pre=None, var=None):
        """Analyse a loop: find what the body may write, run it once on a generic
        iteration, then summarise (folds for scalars, quantified updates for arrays)."""
        key = (id(s), self.fr.id, self.fr.this, tuple(sorted(("%r" % (l.atom,)) for l in self.loops)))
        ws = self._loopw.get(key)
        if ws is None:
            snap = (self.store, list(self.guards), len(self.fr.rets), len(self.fr.exits), len(self.lstack))
            self.store = dict(self.store)
            self.dry += 1
            self.wlog.append(set())
            self.loops.append(loop)
            self.enter(True)
            if pre:
                pre()
            body()
            self.lstack.pop()
            self.loops.pop()
            ws = self.wlog.pop()
            self._loopw[key] = ws
            self.dry -= 1
            self.store, self.guards = snap[0], snap[1]
            del self.fr.rets[snap[2]:]
            del self.fr.exits[snap[3]:]
            self.dead = None
        for w in ws:
            for x in self.wlog:
                x.add(w)
        g0 = list(self.guards)
        pre_store = self.store
        L = (s["p"][0], s["p"][1], len(self.loops), self.fr.id)
        self.store = dict(pre_store)
        r0, x0, gn = len(self.fr.rets), len(self.fr.exits), len(self.guards)
        arrs, scal = set(), set()
        for w in ws:
            i = self._arr(w)
            if i < len(w):
                arrs.add(w[:i])
            elif isinstance(w[-1], tuple) and w[-1][0] == "view":
                arrs.add(tuple(x for x in w if not (isinstance(x, tuple) and x[0] == "view")))
            elif w != var:
                scal.add(w)
        arrs = sorted(arrs, key=lambda a: (len(a), repr(a)))
        for a in arrs:
            for k in self.entries(a):
                del self.store[k]
            self.store[("reg",) + a] = (("acc", L),)
        scal = sorted(scal, key=repr)
        for w in scal:
            pv = pre_store.get(w)
            acc = Poly.atom(("acc", L, w))
            if isinstance(pv, Ptr):
                self.store[w] = Ptr(pv.path, acc)
            elif isinstance(pv, (Poly, Cond)) or (pv is None and w[0][0] != "loc"):
                self.drop(w)
                self.store[w] = acc if not isinstance(pv, Cond) else Cond(("b", ("acc", L, w)))
            else:
                self.drop(w)
                self.store[("ver",) + w] = self.store.get(("ver",) + w, 0) + 1
        self.loops.append(loop)
        self.enter(True)
        if not self.dry:
            self.on_loop(loop, "enter")
        if pre:
            pre()
        body()
        if not self.dry:
            self.on_loop(loop, "exit")
        ls = self.lstack.pop()
        self.loops.pop()
        if self.dead in ("return", "break", "throw", "mixed"):
            pass
        self.dead = None
        self.guards = g0
        self.quantify_returns(loop, L, r0, x0, gn - self.fr.g0)
        brk = None
        if ls["brk"] or ls["ret"]:
            brk = or_([c for c, _ in ls["brk"]]) if ls["brk"] else ("b", ("ret",))
            if ls["brk"]:
                self.join(ls["brk"], True)
        end = self.store
        self.store = dict(pre_store)
        if not self.dry:
            self.on_transition(L, loop, arrs, scal, pre_store, end, brk)
        self.finish_loop(L, loop, arrs, scal, pre_store, end, brk)
        if var is not None and loop.atom is not None and loop.lo is not None and loop.hi is not None and brk is None:
            self.store[var] = loop.hi if loop.step > 0 else loop.lo - ONE
        elif var is not None:
            self.store.pop(var, None)

    def quantify_returns(self, loop, L, r0, x0, k):
        """Leaving the function from inside a loop: some iteration satisfies the condition."""
        v = loop.atom
        known = v is not None and loop.lo is not None and loop.hi is not None
        if known:
            n = loop.hi - loop.lo if abs(loop.step) == 1 else Poly.atom(("cdiv", loop.hi - loop.lo, abs(loop.step)))
            sub = loop.lo + Poly.atom(("bv", "i")) * Poly.const(abs(loop.step))
        else:
            n, sub = Poly.atom(("iters",)), Poly.atom(("bv", "i"))

        def an(x):
            return deep(self.anon_carried(x, L), lambda a: sub if a == v else None)

        def some(c):
            c = an(c)
            return ("b", ("any", n, "up" if not known or loop.step > 0 else "down", c))

        for j in range(r0, len(self.fr.rets)):
            gs, val = self.fr.rets[j]
            inner = and_(gs[k:])
            val = an(val) if isinstance(val, (Poly, Cond, Opq, ListV)) else val
            self.fr.rets[j] = (tuple(gs[:k]) + (some(inner),), val)
        for j in range(x0, len(self.fr.exits)):
            c, st = self.fr.exits[j]
            self.fr.exits[j] = (some(c), st)

    def finish_loop(self, L, loop, arrs, scal, pre, end, brk):
        v = loop.atom
        known = v is not None and loop.lo is not None and loop.hi is not None
        if known:
            lo, hi, step = loop.lo, loop.hi, loop.step
            n = hi - lo if abs(step) == 1 else Poly.atom(("cdiv", hi - lo, abs(step)))
            va = Poly.atom(v)
            t = (va - lo) if step == 1 else (hi - ONE - va) if step == -1 else Poly.atom(("cdiv", va - lo, abs(step)))
        else:
            n, step = Poly.atom(("iters",)), 1
        if brk is not None:
            n = Poly.atom(("brk", n, self.anon(brk, v)))
        isacc = lambda a: a[0] == "acc" and a[1] == L
        solved, post = {}, {}
        work = {}
        for w in scal:
            pv, f = pre.get(w), end.get(w)
            if isinstance(pv, Ptr):
                if isinstance(f, Ptr) and f.path == pv.path:
                    work[w] = (pv.off if pv.off is not None else ZERO, f.off if f.off is not None else ZERO)
                continue
            if isinstance(pv, (Poly, Cond)) or (pv is None and w[0][0] != "loc"):
                if f is None or not isinstance(f, (Poly, Cond)):
                    continue
                self.store = pre
                init = self.num(pv) if pv is not None else self.resolve(w)
                work[w] = (init, self.num(f))
        self.store = dict(pre)
        progress = True
        while progress and work:
            progress = False
            for w in list(work):
                init, f = work[w]
                acc = ("acc", L, w)
                f = deep(f, lambda a: solved.get(a) if isacc(a) else None) if solved else f
                d = f - Poly.atom(acc)
                if f == Poly.atom(acc):
                    solved[acc] = post[w] = init
                elif contains(d, isacc):
                    continue
                elif not self.varies(d, v, L) and known:
                    solved[acc] = init + d * t
                    post[w] = init + d * n
                elif known:
                    body = self.anon_carried(d, L)
                    post[w] = init + self.mk_sum(n, body, v, lo, step)
                    solved[acc] = init + Poly.atom(("psum", t, self.anon(body, v)))
                else:
                    continue
                del work[w]
                progress = True
        for w in list(work):
            init, f = work[w]
            acc = ("acc", L, w)
            f = deep(f, lambda a: solved.get(a) if isacc(a) else None) if solved else f
            others = contains(f, lambda a: isacc(a) and a != acc)
            own = contains(f, lambda a: a == acc)
            f = self.anon_carried(f, L)
            if not others and not own and known and brk is None:
                last = hi - ONE if step > 0 else lo
                post[w] = deep(f, lambda a: last if a == v else None)
                solved[acc] = Poly.atom(("prev", init, self.anon(f, v)))
            elif not others:
                g = self.anon(deep(f, lambda a: Poly.atom(("bv", "a")) if a == acc else None), v)
                tag = ("fold", n, "up" if step > 0 else "down", init, g)
                mx = self.extremum(g)
                if mx is not None and known:
                    tag = (mx[0] + "over", n, init, mx[1])
                post[w] = Poly.atom(tag)
                solved[acc] = Poly.atom(("pfold",) + tag[1:])
            else:
                ren = {("acc", L, x): Poly.atom(("bv", self.wname(x))) for x in work}
                sysm = tuple(sorted(((self.wname(x), work[x][0], self.anon(self.anon_carried(deep(work[x][1], lambda a: ren.get(a) or (solved.get(a) if isacc(a) else None)), L), v)) for x in work), key=repr))
                post[w] = Poly.atom(("mrec", self.wname(w), n, "up" if step > 0 else "down", sysm))
        for w in list(work):
            acc = ("acc", L, w)
            if acc not in solved:
                solved[acc] = Poly.atom(("pmrec",) + list(post[w].atoms())[0][1:])
        fs = (lambda a: solved.get(a)) if solved else (lambda a: None)
        # arrays
        newregs, whys = {}, {}
        for a in arrs:
            regs = end.get(("reg",) + a, ())
            items = None
            if regs and regs[0] == ("acc", L):
                items = [u for u in regs[1:]]
            keys = [k for k in end if len(k) > len(a) and k[0] not in SPECIAL and k[:len(a)] == a and isinstance(k[len(a)], tuple) and k[len(a)][0] == "[]"]
            if items is None or any(u[0] != "u" for u in items):
                newregs[a] = None
                body = tuple(regs) + tuple(("u", (), k, end[k]) for k in sorted(keys, key=repr))
                body = deep(body, fs) if solved else body
                body = tuple(deep(self.anon_carried(u, L), lambda q: Poly.atom(("bv", "i")) if q == v else None) for u in body)
                whys[a] = ("loop", n, "up" if step > 0 else "down", ("st", fingerprint(body)))
                continue
            newregs[a] = [(u[1], u[2], u[3]) for u in items] + [((), k, end[k]) for k in keys]
        done = {}
        for a, items in newregs.items():
            if items is None:
                continue
            items = [(vs, deep_path(p, fs), deep(x, fs) if isinstance(x, (Poly, Cond)) else x) for vs, p, x in items]
            varying = [p for vs, p, x in items if contains_path(p, lambda q: q == v)]
            out = []
            for vs, p, x in items:
                if known and p in varying:
                    x = self.own_loads(x, L, p, [q for q in varying if q != p], pre, v, step) if isinstance(x, (Poly, Cond)) else x
                    rv = ("rv", L, loop.atom[2])
                    self.rv_dom[rv] = n
                    sub = lo + Poly.atom(rv) * Poly.const(abs(step))
                    fsub = lambda q: sub if q == v else None
                    vs = tuple((q, deep(m, fsub)) for q, m in vs)
                    for q, m in vs:
                        self.rv_dom[q] = m
                    out.append((((rv, n),) + vs, deep_path(p, fsub), deep(x, fsub) if isinstance(x, (Poly, Cond)) else x))
                elif isinstance(x, (Poly, Cond)):
                    own = ("ld", p, ("acc", L))
                    x = self.num(x)
                    self.store = pre
                    init = self.resolve_pre(p, pre)
                    self.store = dict(pre)
                    d = x - Poly.atom(own)
                    if x == Poly.atom(own):
                        continue
                    if not contains(d, lambda q: q == own) and known and len([q for _, q, _ in items if not self.apart(q[len(a):], p[len(a):], ())]) == 1:
                        x = init + self.mk_sum(n, self.anon_carried(d, L), v, lo, step)
                    elif not contains(x, lambda q: q == own) and known and brk is None:
                        last = hi - ONE if step > 0 else lo
                        x = deep(self.anon_carried(x, L), lambda q: last if q == v else None)
                    else:
                        g = self.anon(self.anon_carried(deep(x, lambda q: Poly.atom(("bv", "a")) if q == own else None), L), v)
                        x = Poly.atom(("fold", n, "up" if step > 0 else "down", init, g))
                    out.append((vs, p if v is None else deep_path(p, lambda q: Poly.atom(("bv", "i")) if q == v else None), x))
                else:
                    out.append((vs, p, None))
            done[a] = out
        self.store = dict(pre)
        for w in scal:
            pv = pre.get(w)
            if w in post:
                x = post[w]
                if isinstance(pv, Ptr):
                    self.store[w] = Ptr(pv.path, x)
                elif isinstance(pv, Cond):
                    self.store[w] = Cond(self.as_cond(x))
                else:
                    self.drop(w)
                    self.store[w] = x
            else:
                if end.get(w) is not None and end.get(w) == pv and isinstance(pv, (Str, ListV, Opq, Obj)):
                    continue
                fv, fr_, fc = end.get(w), end.get(("reg",) + w), end.get(("cp",) + w)
                self.drop(w)
                if pv is None and w[0][0] == "loc" and fr_ is None and fc is None:
                    continue
                self.store[("ver",) + w] = self.store.get(("ver",) + w, 0) + 1
                anon1 = lambda u: deep(self.anon_carried(u, L), lambda q: Poly.atom(("bv", "i")) if q == v else None)
                why = ["loop", n, "up" if step > 0 else "down"]
                if isinstance(fv, (Poly, Cond, Str, ListV, Obj, Opq)):
                    why.append(anon1(deep(fv, fs) if solved else fv))
                if fr_ is not None:
                    why.append(("st", fingerprint(tuple(anon1(deep(u, fs) if solved else u) for u in fr_))))
                if fc is not None:
                    why.append(anon1(fc))
                self.store[("reg",) + w] = (("eff", (), tuple(why)),)
        for a in arrs:
            ks = self.entries(a)
            if newregs[a] is None:
                self.kill(a, whys[a])
                continue
            if ks:
                self.flush(a, ks)
            regs = self.store.get(("reg",) + a, ())
            for vs, p, x in done[a]:
                if not vs and self._arr(p) < len(p):
                    # an element with loop-invariant index keeps an exact entry
                    if self.entries(a) and any(not self.apart(k[len(a):], p[len(a):], ()) and k != p for k in self.entries(a)):
                        self.flush(a, self.entries(a))
                    if len(done[a]) == 1:
                        self.store[p] = x if x is not None else self.fresh("w")
                        continue
                regs = self.store.get(("reg",) + a, ())
                self.store[("reg",) + a] = regs + (("u", vs, p, x if x is not None else self.fresh("w")),)

    def wname(self, w):
        return w[-1] if isinstance(w[-1], str) else w[0][3] if w[0][0] == "loc" else pshow(w)

    def extremum(self, g):
        """g == max/min(bv a, e)?"""
        if len(g.t) == 1:
            (m, c), = g.t.items()
            if c == 1 and len(m) == 1 and m[0][1] == 1 and m[0][0][0] in ("max", "min"):
                a = m[0][0]
                me = Poly.atom(("bv", "a"))
                if me in a[1:]:
                    e = a[2] if a[1] == me else a[1]
                    if not contains(e, lambda q: q == ("bv", "a")):
                        return a[0], e
        return None

    def resolve_pre(self, p, pre):
        sv = pre.get(p)
        if isinstance(sv, (Poly, Cond)):
            return self.num(sv)
        return self.resolve(p)

    def own_loads(self, x, L, p, others, pre, v, step):
        """Loads of loop-written arrays at the start of an iteration."""
        n = self._arr(p)
        clash = [q for q in others if not self.sep(q[n:], p[n:], v)]

        def f(a):
            if a[0] == "ld" and a[2] == ("acc", L):
                if a[1] == p and not clash:
                    saved = self.store
                    self.store = pre
                    r = self.resolve_pre(p, pre)
                    self.store = saved
                    return r
                return Poly.atom(("ld", a[1], ("car", "up" if step > 0 else "down")))
            return None

        return deep(x, f)

    def sep(self, r1, r2, v):
        """Updates r1(v), r2(v') never hit the same element in different iterations."""
        if len(r1) != len(r2):
            return self.apart(r1, r2, ())
        for a, b in zip(r1, r2):
            if isinstance(a, str) or isinstance(b, str):
                if a != b and isinstance(a, str) and isinstance(b, str):
                    return True
                continue
            if len(a) != len(b):
                return False
            for x, y in zip(a[1:], b[1:]):
                if isinstance(x, Poly) and isinstance(y, Poly):
                    c = (x - y).cval()
                    if c:
                        cr = x.coeff(v)
                        if cr is None:
                            continue
                        k = cr[0].cval()
                        if k is not None and (k == 0 or abs(k) > abs(c)):
                            return True
        return False

    def varies(self, d, v, L):
        return contains(d, lambda a: a == v or (a[0] == "ld" and a[2] == ("acc", L)) or a[0] == "u")

    def anon(self, x, v):
        return deep(x, lambda a: Poly.atom(("bv", "i")) if a == v else None) if isinstance(x, Poly) else deep_cond(x, lambda a: Poly.atom(("bv", "i")) if a == v else None)

    def anon_carried(self, x, L):
        return deep(x, lambda a: Poly.atom(("ld", a[1], ("car", ""))) if a[0] == "ld" and a[2] == ("acc", L) else None)

    def mk_sum(self, n, d, v, lo, step):
        h = 1 + bvheight(d)
        b = Poly.atom(("bv", h))
        sub = lo + b * Poly.const(abs(step))
        d = deep(d, lambda a: sub if a == v else None)
        return sum_over(n, d, h)

    def kill_loop(self, w):
        self.kill(w)

    def s_for(self, s):
        lo = var = None
        init = s.get("init")
        if init is not None:
            self.stmt(init)
            if init["k"] == "decl" and len(init["v"]) == 1:
                var = self.fr.env.get(init["v"][0]["id"])
            elif init["k"] == "bin" and init["op"] == "=":
                var = self.lv(init["l"])
        loop = Loop(None, None, None, None, s, "for")
        atom = None
        if var is not None:
            lo = self.store.get(var)
            step = self.step_of(s.get("inc"), var)
            if isinstance(lo, Poly) and step is not None and s.get("cond") is not None and not self.assigned_in(s["body"], var):
                nm = var[-1] if isinstance(var[-1], str) else var[0][3] if var[0][0] == "loc" else "i"
                atom = ("lv", "%d.%d" % (s["p"][0], s["p"][1]) + "." + str(len(self.loops)) + "." + str(self.fr.id), nm)
                s = self.counted(s, var, step)
                # bounds from the condition, in terms of values before the loop
                hi = self.bound(s["cond"], var, step)
                loop.atom = atom
                loop.step = step
                if step > 0:
                    loop.lo, loop.hi = lo, hi
                else:
                    loop.lo, loop.hi = hi, lo + ONE
        if atom is not None:
            self.loop_atoms[atom] = loop

        def pre():
            if atom is not None:
                self.store[var] = Poly.atom(atom)

        def body():
            ng = len(self.guards)
            if s.get("cond") is not None:
                c = self.cond(s["cond"])
                if c not in (TRUE,) and atom is None:
                    self.guards.append(c)
            self.stmt(s["body"])
            self.next_iter()
            if not self.dead and s.get("inc") is not None:
                if atom is None:
                    self.rv(s["inc"])
                else:
                    for w in self.wlog:
                        w.add(var)
            del self.guards[ng:]

        self.loop_body(s, loop, body, pre=pre, var=var if atom is not None else None)

    def next_iter(self):
        """Join the states of 'continue' with the end of the body."""
        l = self.lstack[-1]
        if l["cont"]:
            self.join(l["cont"], not self.dead)
            self.dead = None
            l["cont"] = []

    def assigned_in(self, body, var):
        if var[0][0] != "loc":
            return False
        vid = var[0][2]
        from cxx import walk
        for n in walk(body):
            if n["k"] == "un" and n["op"] in ("++", "--", "&") and n["e"].get("k") == "ref" and n["e"].get("id") == vid:
                return True
            if n["k"] == "bin" and n["op"].endswith("=") and n["op"] not in ("==", "!=", "<=", ">=") and n["l"].get("k") == "ref" and n["l"].get("id") == vid:
                return True
        return False

    def step_of(self, inc, var):
        if inc is None:
            return None
        if inc["k"] == "un" and inc["op"] in ("++", "--") and self.lv(inc["e"]) == var:
            return 1 if inc["op"] == "++" else -1
        if inc["k"] == "bin" and inc["op"] in ("+=", "-=") and self.lv(inc["l"]) == var:
            c = self.rv(inc["r"])
            c = c.cval() if isinstance(c, Poly) else None
            if c is not None and c.denominator == 1 and c:
                return int(c) if inc["op"] == "+=" else -int(c)
        return None

    def counted(self, s, var, step):
        """A loop 'bound && rest' is one over the bound whose body starts with 'if (!rest) break'."""
        c = s["cond"]
        if c["k"] != "bin" or c["op"] != "&&":
            return s
        cs, stack = [], [c]
        while stack:
            x = stack.pop()
            if x["k"] == "bin" and x["op"] == "&&":
                stack += [x["r"], x["l"]]
            elif x["k"] == "paren":
                stack.append(x["e"])
            else:
                cs.append(x)
        i = next((i for i, x in enumerate(cs) if self.bound(x, var, step) is not None), None)
        if i is None:
            return s
        at = {k: c[k] for k in ("p", "t") if k in c}
        pre = [dict(at, k="if", cond=dict(at, k="un", op="!", e=x), then={"k": "break", "p": s["p"]}) for x in cs[:i] + cs[i + 1:]]
        return dict(s, cond=cs[i], body={"k": "block", "p": s["p"], "c": pre + [s["body"]]})

    def bound(self, cond, var, step):
        """Exclusive upper bound (step>0) or inclusive lower bound (step<0)."""
        if cond["k"] == "bin" and cond["op"] == "&&":
            return self.bound(cond["l"], var, step) or self.bound(cond["r"], var, step)
        if cond["k"] != "bin" or cond["op"] not in ("<", "<=", ">", ">=", "!="):
            return None
        op = cond["op"]
        if self.lv_quiet(cond["l"]) == var:
            b = self.rv(cond["r"])
        elif self.lv_quiet(cond["r"]) == var:
            b = self.rv(cond["l"])
            op = {"<": ">", "<=": ">=", ">": "<", ">=": "<=", "!=": "!="}[op]
        else:
            # offset + var < b
            old = self.store.get(var)
            x = ("lv", "bound", "?")
            self.store[var] = Poly.atom(x)
            l, r = self.rv(cond["l"]), self.rv(cond["r"])
            self.store[var] = old
            if not isinstance(l, Poly) or not isinstance(r, Poly):
                return None
            d = l - r
            w = d.t.get(((x, 1),))
            rest = d - Poly.atom(x) * Poly.const(w) if w else None
            if w not in (1, -1) or contains(rest, lambda a: a == x):
                return None
            b = rest * Poly.const(-w)
            if w == -1:
                op = {"<": ">", "<=": ">=", ">": "<", ">=": "<=", "!=": "!="}[op]
        if not isinstance(b, Poly):
            return None
        if step > 0:
            return {"<": b, "!=": b, "<=": b + ONE}.get(op)
        return {">": b + ONE, ">=": b, "!=": b + ONE}.get(op)

    def lv_quiet(self, e):
        if e is None or e.get("k") not in ("ref", "mem"):
            return None
        return self.lv(e)

    def s_while(self, s):
        if s.get("mac", "").startswith(("CHECK", "DCHECK", "QCHECK")):
            c = self.cond(s["cond"])
            self.on_check(s, not_(c))
            self.guards.append(not_(c))
            return
        loop = Loop(None, None, None, None, s, "while")
        var = self.induction(s, loop)

        def pre():
            if var is not None:
                self.store[var] = Poly.atom(loop.atom)

        def body():
            ng = len(self.guards)
            c = self.cond(s["cond"])
            if c != TRUE and var is None:
                self.guards.append(c)
            self.stmt(s["body"])
            self.next_iter()
            del self.guards[ng:]

        self.loop_body(s, loop, body, pre=pre, var=var)

    def induction(self, s, loop):
        """Counter of a while loop: a local compared in the condition and stepped once,
        by a constant, at the top level of the body."""
        from cxx import walk
        c = s["cond"]
        if c["k"] != "bin" or c["op"] not in ("<", "<=", ">", ">=", "!="):
            return None
        body = s["body"]["c"] if s["body"]["k"] == "block" else [s["body"]]
        for side in (c["l"], c["r"]):
            var = self.lv_quiet(side)
            if var is None or var[0][0] != "loc" or len(var) != 1 or not isinstance(self.store.get(var), Poly):
                continue
            steps = [x for x in body if self.step_of(x, var) is not None]
            if len(steps) != 1 or any(n["k"] == "continue" for n in walk(s["body"])):
                continue
            if any(self.assigned_in(x, var) for x in body if x is not steps[0]):
                continue
            step = self.step_of(steps[0], var)
            lo = self.store[var]
            hi = self.bound(c, var, step)
            if hi is None:
                continue
            loop.atom = ("lv", "%d.%d" % (s["p"][0], s["p"][1]) + "." + str(len(self.loops)) + "." + str(self.fr.id), var[0][3])
            loop.step = step
            loop.lo, loop.hi = (lo, hi) if step > 0 else (hi, lo + ONE)
            self.loop_atoms[loop.atom] = loop
            return var
        return None

    def on_check(self, s, cond): pass

    def s_do(self, s):
        loop = Loop(None, None, None, None, s, "do")

        def body():
            ng = len(self.guards)
            self.stmt(s["body"])
            self.next_iter()
            self.cond(s["cond"])
            del self.guards[ng:]

        self.loop_body(s, loop, body)

    def s_rfor(self, s):
        rv = self.rv(s["range"])
        v = s["var"]
        if isinstance(rv, Ref) and isinstance(self.store.get(rv.path), ListV):
            rv = self.store[rv.path]
        if isinstance(rv, ListV) and len(rv.items) <= 64:
            # unroll over the literal list
            brk = []
            for it in rv.items:
                path = (("loc", self.fr.id, v["id"], v["n"]),)
                if isinstance(it, Ref):
                    self.fr.env[v["id"]] = it.path
                else:
                    self.fr.env[v["id"]] = path
                    self.store[path] = it
                self.enter(True)
                self.stmt(s["body"])
                self.next_iter()
                l = self.lstack.pop()
                brk += l["brk"]
                if self.dead:
                    break
            if brk:
                self.join(brk, not self.dead)
                self.dead = None
            return
        base = rv.path if isinstance(rv, (Ref, Ptr)) else None
        atom = ("lv", "%d.%d" % (s["p"][0], s["p"][1]) + "." + str(len(self.loops)) + "." + str(self.fr.id), "it_" + v["n"])
        hi = self.size_of(base, "size", s) if base else self.fresh("range")
        loop = Loop(atom, ZERO, hi, 1, s, "rfor")
        self.loop_atoms[atom] = loop

        def body():
            if base is not None:
                el = self.elem(base, [Poly.atom(atom)])
                t = self.types()[v["t"]]
                if t.rstrip().endswith("&") or not self.is_numeric(t):
                    self.fr.env[v["id"]] = el
                    if not self.is_numeric(t):
                        self.store_alias(v, el, t)
                else:
                    path = (("loc", self.fr.id, v["id"], v["n"]),)
                    self.fr.env[v["id"]] = path
                    self.store[path] = self.load(el, s)
            else:
                path = (("loc", self.fr.id, v["id"], v["n"]),)
                self.fr.env[v["id"]] = path
                self.store[path] = Opq("elem", (rv, Poly.atom(atom)))
            if "bind" in v:
                for i, b in enumerate(v["bind"]):
                    self.fr.env[b["id"]] = self.fr.env[v["id"]] + (("bind", i),)
            self.stmt(s["body"])
            self.next_iter()

        self.loop_body(s, loop, body)

    def store_alias(self, v, el, t):
        pass

    # ---- expressions ---------------------------------------------------------
    def cond(self, e):
        v = self.rv(e)
        return self.as_cond(v)

    def as_cond(self, v):
        if isinstance(v, Cond):
            return v.c
        if isinstance(v, Poly):
            c = v.cval()
            if c is not None:
                return TRUE if c else FALSE
            if len(v.t) == 1:
                (m, k), = v.t.items()
                if len(m) == 1 and m[0][1] == 1 and k == 1:
                    a = m[0][0]
                    if a[0] == "ite":
                        return or_([and_([a[1], self.as_cond(a[2])]), and_([not_(a[1]), self.as_cond(a[3])])])
                    if a[0] == "bool":
                        return a[1]
                    return ("b", a)
            return cmp_("!=", v, ZERO)
        if v is None:
            return ("b", ("u", "cond%d" % self._u))
        if isinstance(v, Ptr):
            return TRUE
        try:
            hash(v)
        except TypeError:
            return ("b", ("val", repr(v)))
        return ("b", ("val", v))

    def num(self, v):
        """Coerce to Poly."""
        if isinstance(v, Poly):
            return v
        if isinstance(v, Cond):
            if v.c == TRUE:
                return ONE
            if v.c == FALSE:
                return ZERO
            return Poly.atom(("bool", v.c))
        if isinstance(v, Ref):
            return Poly.atom(("ld", v.path, self.ver_of(v.path)))
        if v is None:
            return self.fresh("n")
        if isinstance(v, Lam):
            return self.fresh("lam")
        return Poly.atom(("val", v))

    def lv(self, e):
        """Path denoted by an lvalue expression, or None."""
        if e is None:
            return None
        k = e["k"]
        if k == "ref":
            dk = e["dk"]
            if dk in ("local", "param"):
                p = self.fr.lookup(e["id"])
                if p is None:
                    p = (("loc", 0, e["id"], e["n"]),)
                root = self.root_for(self.ty(e))
                if root is not None and p[0][0] != "loc":
                    return root
                sv = self.store.get(p)
                if isinstance(sv, Ref) and len(p) == 1 and p[0][0] == "loc":
                    return p
                return p
            if dk == "global":
                return (("glob", e["qn"]),)
            return None
        if k == "this":
            return self.this_path()
        if k == "mem":
            if e["mk"] == "static":
                return (("glob", e["qn"]),)
            root = self.root_for(self.ty(e))
            if root is not None:
                # evaluate base for reads of pointers only
                return root
            b = self.lvbase(e["b"])
            if b is None:
                return None
            return b + (e["n"],)
        if k == "idx":
            b = self.rv(e["b"])
            i = self.num(self.rv(e["i"]))
            if isinstance(b, Ptr):
                return self.elem(b.path, [i + b.off] if b.off is not None else [i])
            if isinstance(b, Ref):
                return self.elem(b.path, [i])
            lb = self.lv(e["b"])
            return self.elem(lb, [i]) if lb else None
        if k == "opcall" and e["op"] in ("[]", "()"):
            q = e.get("qn", "")
            if e["op"] == "()" and self.is_lambda(e["args"][0]):
                v = self.rv_ref(e)
                return v.path if isinstance(v, Ref) else None
            b = self.lvbase(e["args"][0])
            if b is None:
                v = self.rv(e["args"][0])
                if isinstance(v, (Ptr, Ref)):
                    b = v.path
                else:
                    return None
            idx = [self.idxval(a) for a in e["args"][1:]]
            return self.elem(b, idx)
        if k == "mcall" and e.get("n") in ("at", "coeffRef", "coeff", "value", "get", "front", "back") or (k == "opcall" and e["op"] in ("*", "->") and len(e["args"]) == 1) or (k == "un" and e["op"] == "*"):
            o = e["obj"] if k == "mcall" else e["args"][0] if k == "opcall" else e["e"]
            if k == "mcall" and self.repo_fn(e):
                v = self.rv_ref(e)
                return v.path if isinstance(v, (Ref,)) else None
            n = e.get("n") if k == "mcall" else "*"
            if n in ("at", "coeffRef", "coeff"):
                b = self.lvbase(o)
                return self.elem(b, [self.idxval(a) for a in e["args"]]) if b else None
            if n == "front":
                b = self.lvbase(o)
                return self.elem(b, [ZERO]) if b else None
            if n == "back":
                b = self.lvbase(o)
                return self.elem(b, [self.size_of(b, "size", e) - ONE]) if b else None
            v = self.rv(o)
            if isinstance(v, Ptr):
                if v.off is not None:
                    return self.elem(v.path, [v.off])
                return v.path
            if isinstance(v, Ref):
                return v.path
            b = self.lv(o)
            return b
        if k in ("cast", "definit"):
            return self.lv(e.get("e"))
        if k == "call" and e.get("qn") in ("std::move", "std::forward"):
            return self.lv(e["args"][0])
        if k == "mcall" and e.get("n") in ("segment", "head", "tail", "row", "col", "array", "matrix", "noalias", "transpose", "topRows", "middleRows", "leftCols", "block", "eval", "reshaped", "leftRows", "bottomRows"):
            return self.view(e)
        if k == "cond":
            return None
        if k in ("call", "mcall", "opcall"):
            v = self.rv_ref(e)
            if isinstance(v, Ref):
                return v.path
            return None
        if k == "un" and e["op"] in ("++", "--") and not e.get("post"):
            self.rv(e)
            return self.lv(e["e"])
        if k == "bin" and e["op"].endswith("=") and e["op"] not in ("==", "!=", "<=", ">="):
            self.rv(e)
            return self.lv(e["l"])
        return None

    def rv_ref(self, e):
        """Evaluate a call for the location its returned reference denotes."""
        self.want.add(id(e))
        v = self.rv(e)
        self.want.discard(id(e))
        return v

    def view(self, e):
        b = self.lvbase(e["obj"])
        if b is None:
            return None
        n = e["n"]
        a = [self.idxval(x) for x in e["args"]]
        sv = self.store.get(b)
        if isinstance(sv, Ref) and isinstance(sv.path[-1], tuple) and sv.path[-1][0] == "view":
            b = sv.path
        if n in ("array", "matrix", "noalias", "eval"):
            return b
        if n == "head" and len(a) == 1:
            n, a = "segment", [ZERO, a[0]]
        elif n == "tail" and len(a) == 1 and self._arr(b) == len(b):
            n, a = "segment", [self.size_of(b, "size", e) - a[0], a[0]]
        if n == "segment" and len(a) == 2 and isinstance(b[-1], tuple) and b[-1][:2] == ("view", "segment"):
            return b[:-1] + (("view", "segment", b[-1][2] + a[0], a[1]),)
        return b + (("view", n) + tuple(a),)

    def view_index(self, p, node):
        """(array, index list of element k, count) of a one-dimensional view path, or None."""
        if not (isinstance(p[-1], tuple) and p[-1][0] == "view") or any(isinstance(x, tuple) and x[0] == "view" for x in p[:-1]):
            return None
        v, a = p[-1], p[:-1]
        if self._arr(a) != len(a):
            return None
        k = Poly.atom(("rv", ("map", 0), "k"))
        if v[1] == "segment" and len(v) == 4:
            return a, [v[2] + k], v[3]
        if v[1] == "row" and len(v) == 3:
            return a, [v[2], k], self.size_of(a, "cols", node)
        if v[1] == "col" and len(v) == 3:
            return a, [k, v[2]], self.size_of(a, "rows", node)
        return None

    def view_assign(self, p, val, node):
        """Elementwise assignment to a view. True if modelled exactly."""
        vi = self.view_index(p, node)
        if vi is None:
            return False
        arr, idx, n = vi
        k = ("rv", ("map", 0), "k")
        self.rv_dom[k] = n
        x = self.elemval(val, [Poly.atom(k)])
        if x is None:
            return False
        ks = self.entries(arr)
        if ks:
            self.flush(arr, ks)
        regs = self.store.get(("reg",) + arr, ())
        self.store[("reg",) + arr] = regs + (("u", ((k, n),), arr + (("[]",) + tuple(idx),), x),)
        for w in self.wlog:
            w.add(arr + (("[]", ZERO),))
        return True

    def view_of(self, p):
        if p is None:
            return p
        sv = self.store.get(p)
        if isinstance(sv, Ref) and isinstance(sv.path[-1], tuple) and sv.path[-1][0] == "view":
            return sv.path
        return p

    def idxval(self, a):
        return self.num(self.rv(a))

    def elem(self, b, idx):
        if b is None:
            return None
        # std::span / pointer variables held in locals: resolve to what they view
        sv = self.store.get(b)
        if isinstance(sv, Ptr):
            if len(idx) == 1 and sv.off is not None:
                return self.elem(sv.path, [idx[0] + sv.off])
            return self.elem(sv.path, idx)
        if isinstance(sv, Ref):
            return self.elem(sv.path, idx)
        if b and isinstance(b[-1], tuple) and b[-1][0] == "view":
            v = b[-1]
            if v[1] == "segment" and len(idx) == 1:
                return self.elem(b[:-1], [idx[0] + v[2]])
            if v[1] == "head" and len(idx) == 1:
                return self.elem(b[:-1], idx)
            if v[1] == "row" and len(idx) == 1:
                return self.elem(b[:-1], [v[2], idx[0]])
            if v[1] == "col" and len(idx) == 1:
                return self.elem(b[:-1], [idx[0], v[2]])
            if v[1] == "map" and len(idx) == 2:
                i, j = idx
                return self.elem(b[:-1], [v[2] + (i * v[4] + j if v[5] == "row" else i + j * v[3])])
        return b + (("[]",) + tuple(idx),)

    def lvbase(self, e):
        """Path of an object expression used as base of a member/element access."""
        if e is None:
            return None
        p = self.lv(e)
        if p is not None:
            sv = self.store.get(p)
            if isinstance(sv, Ref):
                return sv.path
            if isinstance(sv, Ptr):
                if sv.off is not None:
                    return self.elem(sv.path, [sv.off]) if "*" in (self.ty(e) or "") and not self._is_span(e) else p
                return sv.path
            return p
        v = self.rv(e)
        if isinstance(v, Ref):
            return v.path
        if isinstance(v, Ptr):
            return v.path if v.off is None else self.elem(v.path, [v.off])
        if v is None:
            return None
        # temporary object: materialise
        self._u += 1
        path = (("loc", self.fr.id, "tmp%d" % self._u, "tmp"),)
        self.store[path] = v
        return path

    def _is_span(self, e):
        return "std::span" in (self.ty(e) or "")

    def this_path(self):
        f = self.fr
        while f.fn is None:
            f = f.lex
        return f.this

    def is_lambda(self, e):
        return "(lambda at" in (self.ty(e) or "") or "std::function" in (self.ty(e) or "")

    def repo_fn(self, e):
        k = e.get("key")
        return self.prog.fns.get(k) if k else None

    def rv(self, e, discard=False):
        if e is None:
            return None
        self.nodes += 1
        k = e["k"]
        m = getattr(self, "e_" + k, None)
        if m is None:
            return self.e_unknown(e)
        if k in ("call", "mcall", "opcall"):
            return m(e, discard)
        return m(e)

    def e_unknown(self, e):
        for c in e.get("c", []) or []:
            if isinstance(c, dict):
                self.rv(c) if c["k"] in EXPR_KINDS or c["k"][0] == "?" else self.stmt(c)
        if "cv" in e:
            return Poly.const(e["cv"])
        return self.fresh("x")

    def e_lit(self, e):
        t = self.ty(e)
        if t == "bool":
            return Cond(TRUE if e["cv"] else FALSE)
        return Poly.const(e["cv"])

    def e_str(self, e):
        return Str(e.get("v", ""))

    def e_nullptr(self, e):
        return Opq("nullptr")

    def e_this(self, e):
        return Ptr(self.this_path())

    def rvpath(self, p, e):
        t = self.ty(e)
        if p is None:
            return self.fresh("p")
        if self.is_numeric(t):
            v = self.load(p, e, True)
            if strip_ty(t) == "bool":
                return Cond(self.as_cond(v))
            return v
        sv = self.store.get(p)
        if sv is not None:
            if not self.dry:
                self.on_read(p, e)
            return sv
        v = self.load(p, e, False)
        return v

    def e_ref(self, e):
        if e["dk"] == "enum":
            return Poly.const(e["cv"])
        if e["dk"] == "func":
            return Opq("fn:" + e["qn"], (e.get("key"),))
        if "cv" in e and self.is_numeric(self.ty(e)):
            p = self.lv(e)
            v = self.store.get(p) if p else None
            if isinstance(v, (Poly, Cond)) and e["dk"] != "global":
                return self.rvpath(p, e)
            if strip_ty(self.ty(e)) == "bool":
                return Cond(TRUE if e["cv"] else FALSE)
            return Poly.const(e["cv"])
        if e["dk"] == "global":
            g = self.prog.globals.get(e.get("qn"))
            if g and g.get("init") is not None and g["types"][g["t"]].startswith("const"):
                v = self.global_init(g)
                if v is not None:
                    return v
        return self.rvpath(self.lv(e), e)

    def global_init(self, g):
        init = g["init"]
        if init["k"] == "str":
            return Str(init.get("v", ""))
        if "cv" in init:
            return Poly.const(init["cv"])
        return None

    def e_mem(self, e):
        if e["mk"] == "method":
            return Opq("method:" + e["qn"])
        return self.rvpath(self.lv(e), e)

    def e_idx(self, e):
        return self.rvpath(self.lv(e), e)

    def e_cast(self, e):
        v = self.rv(e["e"])
        t = strip_ty(self.ty(e))
        if t == "bool" and v is not None:
            return Cond(self.as_cond(v))
        if t in ("int", "long", "unsigned long", "unsigned int", "short", "long long") and isinstance(v, Poly):
            st = strip_ty(self.ty(e["e"]))
            if st in ("double", "float"):
                c = v.cval()
                if c is not None and c.denominator == 1:
                    return v
                return Poly.atom(("fn", "int", v))
        if isinstance(v, Cond) and self.is_numeric(t):
            return self.num(v)
        return v

    def e_definit(self, e):
        return self.rv(e["e"])

    def e_throw(self, e):
        v = self.rv(e.get("e")) if e.get("e") else None
        if not self.dry:
            self.on_throw(v, e)
        return None

    def on_throw(self, v, e): pass

    def e_new(self, e):
        v = self.rv(e.get("e")) if e.get("e") else None
        self._u += 1
        return Ptr((("heap", self._u, strip_ty(self.ty(e))),))

    def e_delete(self, e):
        self.rv(e["e"])
        return None

    def e_lambda(self, e):
        for c in e["caps"]:
            if c.get("init") is not None:
                path = (("loc", self.fr.id, c["id"], c["n"]),)
                self.fr.env[c["id"]] = path
                self.store[path] = self.rv(c["init"])
        return Lam(e, self.fr, None)

    def e_init(self, e):
        vals = [self.rv(a) for a in e["args"]]
        if "fields" in e and e["fields"]:
            f = {}
            for n, a, v in zip(e["fields"], e["args"], vals):
                if isinstance(v, (Poly, Cond, Str)) or v is None:
                    f[n] = v
                    continue
                lv = self.lv(a) if a and a["k"] in ("ref", "mem") else None
                f[n] = Ref(lv) if lv is not None and not isinstance(v, (Ptr, ListV, Obj)) else v
            return Obj(f, strip_ty(self.ty(e)))
        if len(vals) == 1 and self.is_numeric(self.ty(e)):
            return vals[0]
        return ListV(vals)

    def e_ctor(self, e):
        q = e["qn"]
        args = e["args"]
        fn = self.repo_fn(e)
        vals = [(self.rv(a), self.lv_arg(a)) for a in args]
        r = self.on_call("ctor:" + q, e, vals, None)
        if r is not None:
            return r
        if q.startswith("Eigen::Map"):
            vals = [x for x in vals if not (isinstance(x[0], Opq) and x[0].name.startswith("ctor:Eigen::Stride") and not x[0].args)]
            if vals and isinstance(vals[0][0], Ref):
                vals[0] = (Ptr(vals[0][0].path, ZERO), None)
            elif vals:
                vals[0] = (self.as_ptr(args[0], vals[0][0]), None)
        if q.startswith("Eigen::Map") and len(vals) >= 2 and isinstance(vals[0][0], Ptr) and vals[0][0].off is not None and isinstance(vals[1][0], (Poly, Cond)):
            m = vals[0][0]
            if len(vals) == 2:
                return Ref(m.path + (("view", "segment", m.off, self.num(vals[1][0])),))
            if len(vals) == 3 and isinstance(vals[2][0], Poly):
                t = strip_ty(self.ty(e))
                rm = re.search(r"Matrix<[^,<>]*, *-?\d+, *-?\d+, *(\d+)", t)
                return Ref(m.path + (("view", "map", m.off, vals[1][0], vals[2][0], "row" if rm and int(rm.group(1)) & 1 else "col"),))
        if q.startswith("std::span") and vals:
            v, lv = vals[0]
            if isinstance(v, Ptr):
                return Ptr(v.path, v.off if v.off is not None else None)
            if isinstance(v, Ref):
                return Ptr(v.path, ZERO)
            if lv is not None:
                return Ptr(lv, ZERO)
        if (q.startswith("std::basic_string") or q.startswith("std::string") or "string_view" in q or q.startswith("H5std_string")):
            if vals and isinstance(vals[0][0], Str):
                return vals[0][0]
            if vals:
                return vals[0][0]
            return Str("")
        if q.startswith(("std::vector", "std::initializer_list", "std::array", "absl::Span", "std::optional", "absl::StatusOr", "std::unique_ptr", "std::shared_ptr", "Eigen::Ref", "std::function")) and len(vals) >= 1:
            v = vals[0][0]
            if q.startswith(("std::optional", "absl::StatusOr")):
                if v is None and vals[0][1] is not None:
                    v = Ref(vals[0][1])
                self.note_held(q, args[0], v)
            if isinstance(v, Lam) and q.startswith("std::function"):
                self.escape(v)
            if isinstance(v, (ListV, Obj, Lam)) or q.startswith(("std::optional", "absl::StatusOr", "std::unique_ptr", "std::shared_ptr", "Eigen::Ref", "std::function")):
                return v
            self._u += 1
            return Opq(strip_ty(self.ty(e)).split("<")[0], [x for x, _ in vals], self._u)
        if fn is not None and fn.qn not in self.opaque and self.can_inline(fn):
            self._u += 1
            path = (("loc", self.fr.id, "obj%d" % self._u, q.split("::")[-1]),)
            self.recursion.append(fn.key)
            self.invoke(fn, path, vals, e)
            self.recursion.pop()
            return Ref(path)
        if q in self.prog.records and not args:
            # default-initialised aggregate: fields take their default initialisers
            self._u += 1
            return Opq("ctor:" + q, [], self._u)
        if e.get("copy") and vals:
            return vals[0][0]
        self._u += 1
        return Opq("ctor:" + q, [v for v, _ in vals], self._u)

    def lv_arg(self, a):
        if a is None:
            return None
        k = a["k"]
        if k in ("ref", "mem", "idx", "this"):
            p = self.lv(a)
            if p is not None:
                sv = self.store.get(p)
                if isinstance(sv, Ref):
                    return sv.path
            return p
        if k == "un" and a["op"] == "*":
            return self.lv(a)
        if k == "opcall" and a["op"] in ("[]", "()", "*"):
            if a["op"] == "()" and self.is_lambda(a["args"][0]):
                return None
            if self.repo_fn(a):
                return None
            return self.lv(a)
        if k == "mcall" and a.get("n") in ("at", "value", "segment", "head", "tail", "row", "col", "noalias", "array"):
            return self.lv(a)
        if k == "call" and a.get("qn") in ("std::move", "std::forward"):
            return self.lv_arg(a["args"][0])
        if k == "cast":
            return self.lv_arg(a["e"])
        return None

    def can_inline(self, fn):
        return self.fr.depth < self.max_depth and self.recursion.count(fn.key) < 2 and fn.body is not None

    def e_cond(self, e):
        c = self.cond(e["c"])
        if c == TRUE:
            return self.rv(e["a"])
        if c == FALSE:
            return self.rv(e["b"])
        res = []

        def t():
            res.append(self.rv(e["a"]))

        def f():
            res.append(self.rv(e["b"]))

        self.branch(c, t, f)
        return self.phi(c, res[0], res[1])

    def e_un(self, e):
        op = e["op"]
        if op in ("++", "--"):
            p = self.lv(e["e"])
            old = self.num(self.rvpath(p, e["e"]))
            if isinstance(self.store.get(p) if p else None, Ptr):
                pv = self.store[p]
                off = (pv.off or ZERO) + (ONE if op == "++" else -ONE)
                self.write(p, Ptr(pv.path, off), e, op)
                return pv
            new = old + (ONE if op == "++" else -ONE)
            if p is not None:
                self.write(p, new, e, op)
            return old if e.get("post") else new
        if op == "&":
            p = self.lv(e["e"])
            if p is None:
                if e["e"].get("k") == "ref" and e["e"].get("dk") in ("func", "other"):
                    return Opq("fn:" + e["e"].get("qn", ""), (e["e"].get("key"),))
                return self.rv(e["e"])
            if isinstance(p[-1], tuple) and p[-1][0] == "[]" and len(p[-1]) == 2:
                return Ptr(p[:-1], p[-1][1])
            return Ptr(p)
        if op == "*":
            p = self.lv(e)
            return self.rvpath(p, e) if p is not None else self.fresh("deref")
        v = self.rv(e["e"])
        if op == "!":
            return Cond(not_(self.as_cond(v)))
        if op == "-":
            return -self.num(v)
        if op == "+":
            return self.num(v)
        if "cv" in e:
            return Poly.const(e["cv"])
        return Poly.atom(("fn", "un" + op, self.num(v)))

    def arith(self, op, a, b, t):
        t = strip_ty(t)
        isint = t not in ("double", "float", "long double")
        if isinstance(a, Ptr) or isinstance(b, Ptr):
            if op == "+" and isinstance(a, Ptr):
                return Ptr(a.path, (a.off or ZERO) + self.num(b))
            if op == "+" and isinstance(b, Ptr):
                return Ptr(b.path, (b.off or ZERO) + self.num(a))
            if op == "-" and isinstance(a, Ptr) and not isinstance(b, Ptr):
                return Ptr(a.path, (a.off or ZERO) - self.num(b))
            return self.fresh("ptr")
        a, b = self.num(a), self.num(b)
        if op == "+":
            return a + b
        if op == "-":
            return a - b
        if op == "*":
            return a * b
        if op == "/":
            if isint:
                ca, cb = a.cval(), b.cval()
                if ca is not None and cb:
                    q = abs(ca) // abs(cb)
                    return Poly.const(q if (ca >= 0) == (cb >= 0) else -q)
                return Poly.atom(("idiv", a, b))
            return a * b.inverse()
        if op == "%":
            ca, cb = a.cval(), b.cval()
            if ca is not None and cb and ca >= 0 and cb > 0:
                return Poly.const(ca % cb)
            return Poly.atom(("mod", a, b))
        return Poly.atom(("fn", op, a, b))

    def e_bin(self, e):
        op = e["op"]
        if op == ",":
            self.rv(e["l"])
            return self.rv(e["r"])
        if op == "&&":
            a = self.cond(e["l"])
            if a == FALSE:
                return Cond(FALSE)
            self.guards.append(a)
            b = self.cond(e["r"])
            self.guards.pop()
            return Cond(and_([a, b]))
        if op == "||":
            a = self.cond(e["l"])
            if a == TRUE:
                return Cond(TRUE)
            self.guards.append(not_(a))
            b = self.cond(e["r"])
            self.guards.pop()
            return Cond(or_([a, b]))
        if op == "=":
            v = self.rv(e["r"])
            p = self.lv(e["l"])
            if p is not None:
                if strip_ty(self.ty(e["l"])) == "bool" and v is not None and not isinstance(v, Cond):
                    v = Cond(self.as_cond(v))
                elif isinstance(v, Cond) and strip_ty(self.ty(e["l"])) != "bool":
                    v = self.num(v)
                self.write(p, v, e)
            return v
        if op.endswith("=") and op not in ("==", "!=", "<=", ">="):
            r = self.rv(e["r"])
            p = self.lv(e["l"])
            old = self.rvpath(p, e["l"]) if p is not None else None
            if op in ("&=", "|=", "^="):
                if strip_ty(self.ty(e["l"])) == "bool":
                    f = and_ if op == "&=" else or_
                    v = Cond(f([self.as_cond(old), self.as_cond(r)]))
                else:
                    v = Poly.atom(("fn", op, self.num(old), self.num(r)))
            else:
                v = self.arith(op[:-1], old, r, self.ty(e["l"]))
            if p is not None:
                self.write(p, v, e, op)
            return v
        a, b = self.rv(e["l"]), self.rv(e["r"])
        if op in ("<", "<=", ">", ">=", "==", "!="):
            return Cond(self.compare(op, a, b))
        if op in ("+", "-") and strip_ty(self.ty(e)).endswith("*"):
            a, b = self.as_ptr(e["l"], a), self.as_ptr(e["r"], b)
        return self.arith(op, a, b, self.ty(e))

    def as_ptr(self, e, v):
        """A raw pointer variable used in pointer arithmetic points to the array it stands for."""
        if not isinstance(v, Ptr) and strip_ty(self.ty(e)).endswith("*"):
            p = self.lv(e) if e["k"] in ("ref", "mem") else None
            if p is not None:
                return Ptr(p, ZERO)
        return v

    def compare(self, op, a, b):
        if isinstance(a, Str) and isinstance(b, Str):
            r = (a.s == b.s) if op == "==" else (a.s != b.s) if op == "!=" else None
            if r is not None:
                return TRUE if r else FALSE
        if isinstance(a, Cond) and isinstance(b, Cond) and op in ("==", "!="):
            if b.c == TRUE:
                return a.c if op == "==" else not_(a.c)
            if b.c == FALSE:
                return not_(a.c) if op == "==" else a.c
        if isinstance(a, (Str, Opq)) or isinstance(b, (Str, Opq)):
            x, y = (a, b) if isinstance(b, Str) or (not isinstance(a, Str) and repr(a) <= repr(b)) else (b, a)
            try:
                hash((x, y))
                c = ("b", ("eq", x, y))
            except TypeError:
                c = ("b", ("eq", repr(x), repr(y)))
            return c if op == "==" else not_(c) if op == "!=" else ("b", (op, repr(a), repr(b)))
        if isinstance(a, Ptr) and isinstance(b, Ptr):
            c = ("b", ("eq",) + tuple(sorted((repr(a), repr(b)))))
            return c if op == "==" else not_(c)
        return cmp_(op, self.num(a), self.num(b))

    MATH = {"std::sqrt", "std::cos", "std::sin", "std::abs", "std::fabs", "fabs", "sqrt", "cos", "sin", "std::pow", "pow",
            "std::exp", "std::log", "exp", "log", "std::atan2", "std::hypot", "floor", "std::floor", "ceil", "std::ceil",
            "std::round", "round", "std::isfinite", "std::isnan", "std::tanh", "std::cosh", "std::tan", "std::acos", "std::atan",
            "abs", "std::lround", "std::trunc", "std::copysign", "std::fmod", "atan2", "atan", "tanh"}

    def e_call(self, e, discard=False):
        q = e.get("qn")
        if q is None:
            f = self.rv(e.get("fe"))
            args = [(self.rv(a), self.lv_arg(a)) for a in e["args"]]
            r = self.on_call("<indirect>", e, args, None)
            if r is not None:
                return r
            if isinstance(f, Lam):
                return self.call_lambda(f, args, e)
            if isinstance(f, Opq) and f.name.startswith("fn:") and f.args and f.args[0] in self.prog.fns:
                return self.call_repo(self.prog.fns[f.args[0]], None, args, e)
            self.opaque_effects(e, args)
            return self.result(e, "indirect", args)
        if q in ("std::move", "std::forward", "std::as_const", "std::ref", "std::cref"):
            return self.rv(e["args"][0])
        args = [(self.rv(a), self.lv_arg(a)) for a in e["args"]]
        r = self.on_call(q, e, args, None)
        if r is not None:
            return r
        if q in ("std::max", "std::min", "std::fmax", "std::fmin", "fmax", "fmin") and len(args) == 2:
            return self.extreme(q[-3:], self.num(args[0][0]), self.num(args[1][0]))
        if q in ("std::max", "std::min") and len(args) == 1 and isinstance(args[0][0], ListV) and args[0][0].items:
            r = self.num(args[0][0].items[0])
            for x in args[0][0].items[1:]:
                r = self.extreme(q[-3:], r, self.num(x))
            return r
        if q == "std::clamp" and len(args) == 3:
            x, lo, hi = (self.num(v) for v, _ in args)
            return self.extreme("min", self.extreme("max", x, lo), hi)
        if q in self.MATH:
            n = q.replace("std::", "")
            n = {"fabs": "abs"}.get(n, n)
            vals = [self.num(v) for v, _ in args]
            if n == "pow" and len(vals) == 2 and vals[1].cval() in (2, 3):
                p = vals[0]
                for _ in range(int(vals[1].cval()) - 1):
                    p = p * vals[0]
                return p
            return Poly.atom(("fn", n) + tuple(vals))
        fn = self.repo_fn(e)
        if fn is not None and q not in self.opaque and self.can_inline(fn):
            return self.call_repo(fn, None, args, e)
        if fn is not None and rwkey(fn) in self.rw:
            return self.rw_call(fn, None, args, e)
        return self.model_call(q, e, args)

    rw = {}     # function -> (paths written, paths read): effects of calls that are not followed

    def extreme(self, k, a, b):
        if a == b:
            return a
        d = (a - b).cval()
        if d is not None:
            return a if (d > 0) == (k == "max") else b
        return Poly.atom((k,) + tuple(sorted((a, b), key=repr)))

    def escape(self, lam):
        refs = {c["id"] for c in lam.node["caps"] if c.get("byref")}
        for f in lam.node["fns"]:
            for x in cxx.walk(f["body"]):
                if x["k"] in ("bin", "opcall") and x["op"] in ("=", "+=", "-=", "*=", "/=", "|=", "&=") or x["k"] == "un" and x["op"] in ("++", "--"):
                    l = x.get("l") or x.get("e") or (x.get("args") or [None])[0]
                    if isinstance(l, dict) and l.get("k") == "ref" and l.get("id") in refs:
                        path = lam.fr.lookup(l["id"])
                        if path is not None and path not in self.escaped:
                            self.escaped.append(path)

    def callbacks(self, why):
        for j, p in enumerate(self.escaped):
            self.kill(p, ("callback", j) + why)

    def rw_call(self, fn, this, args, e):
        if self.escaped:
            self.callbacks((fn.qn,))
        """A call known by its effects: what it writes is a function of what it reads."""
        w, r = self.rw[rwkey(fn)]

        def rebase(p):
            if p[0] == ("this",):
                return this + p[1:] if this is not None else None
            j = int(p[0][1][3:])
            if j >= len(args):
                return None
            v, lv = args[j]
            b = v.path if isinstance(v, (Ptr, Ref)) else lv
            return tuple(b) + p[1:] if b is not None else None

        reads = []
        for p in r:
            b = rebase(p)
            if len(p) == 1 and p[0] != ("this",) and int(p[0][1][3:]) < len(args) and isinstance(args[int(p[0][1][3:])][0], (Poly, Cond, Str)):
                continue
            c = self.content(b) if b is not None else None
            if c is not None:
                reads.append((rwname(p), c))
        why = ("rw", fn.qn, tuple(hv(v, lv) for v, lv in args), tuple(reads))
        for p in w:
            b = rebase(p)
            if b is None:
                continue
            if not self.dry:
                self.on_write(b, None, e, "call")
            self.kill(b, why + (rwname(p),))
        t = self.ty(e)
        if t == "void":
            return None
        try:
            hash(why)
        except TypeError:
            return self.fresh("call")
        if self.is_numeric(t):
            p = Poly.atom(("call", fn.qn, why[2:]))
            return Cond(self.as_cond(p)) if strip_ty(t) == "bool" else p
        return Opq(fn.qn, why[2] + ((why[3],) if why[3] else ()))

    def content(self, p):
        """What is known to have happened to the contents at p; None if nothing."""
        n = len(p)
        items = []
        for k, v in self.store.items():
            if k[0] == "reg":
                if k[1:n + 1] == p:
                    items.append((rel(k[1 + n:]), self.stref(k[1:])))
            elif k[0] in SPECIAL:
                continue
            elif k[:n] == p and not (isinstance(v, (Ref, Ptr)) and v.path == k):
                i = self._arr(k)
                if i < len(k):
                    items.append((rel(k[n:i]), self.stref(k[:i])))
                else:
                    items.append((rel(k[n:]), hv(v)))
        for j in range(n - 1, 0, -1):
            regs = self.store.get(("reg",) + p[:j])
            if regs and any(u[0] in ("eff", "ite") for u in regs):
                items.append(("^%d" % (n - j), self.stref(p[:j], regs)))
        items = [x for x in items if x[1] not in (0, None)]
        if not items:
            return None
        try:
            return tuple(sorted(set(items), key=repr))
        except TypeError:
            return "?"

    def model_call(self, q, e, args):
        if q in ("absl::c_fill_n", "absl::c_fill", "std::fill", "std::fill_n"):
            v, lv = args[0]
            p = lv if lv is not None else (v.path if isinstance(v, (Ptr, Ref)) else None)
            if p is not None:
                n = args[1][0] if q in ("absl::c_fill_n", "std::fill_n") else None
                self.fill(p, n, args[-1][0], e)
            return None
        if q == "std::swap" and len(args) == 2 and args[0][1] and args[1][1]:
            a, b = args[0][1], args[1][1]
            va, vb = self.store.get(a), self.store.get(b)
            self.write(a, vb, e, "swap")
            self.write(b, va, e, "swap")
            return None
        if q == "std::get" or q == "std::tie" or q == "std::make_tuple" or q == "std::make_pair":
            return ListV([v for v, _ in args]) if q != "std::get" else args[0][0]
        if q in ("std::make_unique", "std::make_shared"):
            self._u += 1
            return Ptr((("heap", self._u, strip_ty(self.ty(e))),))
        self.opaque_effects(e, args)
        return self.result(e, q, args)

    def fill(self, p, n, val, e):
        sv = self.store.get(p)
        if isinstance(sv, (Ref, Ptr)):
            p = sv.path
        if not self.dry:
            self.on_fill(p, n, val, e)
        val = val if isinstance(val, (Poly, Cond)) else None
        if val is None or self._arr(p) < len(p) or any(isinstance(x, tuple) and x[0] == "view" for x in p):
            self.kill(p, ("fill", n, val))
            return
        for w in self.wlog:
            w.add(p + (("[]", ZERO),))
        if n is None or (isinstance(n, Poly) and n == self.size_of(p, "size", e)):
            keep = self.store.get(p + ("#size",))
            self.drop(p)
            if keep is not None:
                self.store[p + ("#size",)] = keep
            self.store[("reg",) + p] = (("all", val),)
            return
        ks = self.entries(p)
        if ks:
            self.flush(p, ks)
        k = ("rv", ("fill", 0), "k")
        self.rv_dom[k] = self.num(n)
        self.store[("reg",) + p] = self.store.get(("reg",) + p, ()) + (("u", ((k, self.num(n)),), p + (("[]", Poly.atom(k)),), val),)

    def on_fill(self, path, n, val, node): pass

    def opaque_effects(self, e, args):
        """Unmodelled callee: may write through pointers and non-const references."""
        why = (e.get("qn", e.get("n", "")),) + tuple(hv(v, lv) for v, lv in args)
        for j, ((v, lv), a) in enumerate(zip(args, e.get("args", []))):
            if isinstance(v, Ptr):
                t = self.ty(a)
                if "const" not in t.split("*")[0]:
                    self.arg_written(v.path, e, (j,) + why)
            elif lv is not None and self.nonconst_ref_param(e, a):
                self.arg_written(lv, e, (j,) + why)

    def nonconst_ref_param(self, e, a):
        return False

    def arg_written(self, path, e, why=()):
        if not self.dry:
            self.on_write(path, None, e, "call")
        self.kill(path, ("call",) + tuple(why))

    def result(self, e, name, args):
        t = self.ty(e)
        if t == "void":
            return None
        vals = tuple(v for v, _ in args)
        if self.is_numeric(t):
            try:
                hash(vals)
            except TypeError:
                return self.fresh("call")
            p = Poly.atom(("call", name, vals))
            if strip_ty(t) == "bool":
                return Cond(self.as_cond(p))
            return p
        return Opq(name, vals)

    def call_repo(self, fn, this, args, e):
        self.recursion.append(fn.key)
        r = self.invoke(fn, this, args, e)
        self.recursion.pop()
        if r is None and fn.rt != "void":
            r = self.result(e, fn.qn, args)
        return r

    def call_lambda(self, lam, args, e):
        fns = lam.node["fns"]
        if not fns or self.fr.depth >= self.max_depth + 4:
            return self.fresh("lam")
        body = fns[0]
        if len(fns) > 1:
            for f in fns:
                if f["key"] == e.get("key"):
                    body = f
        l2 = Lam(lam.node, lam.fr, None)
        l2 = _BoundLam(lam, body)
        return self.invoke(None, None, args, e, lam=l2)

    def e_mcall(self, e, discard=False):
        q = e.get("qn", "")
        n = e.get("n", "")
        o = e.get("obj")
        fn = self.repo_fn(e)
        if fn is None and n in ("at", "coeff", "coeffRef", "front", "back", "value", "get") and not (n == "value" and "Eigen" in q):
            r = self.on_call(q, e, [(self.rv(a), None) for a in e["args"]], self.lv(o)) if n == "value" else None
            if r is not None:
                return r
            return self.rvpath(self.lv(e), e)
        ov = None
        op = self.lvbase(o) if o is not None else None
        if op is None and o is not None:
            ov = self.rv(o)
        args = [(self.rv(a), self.lv_arg(a)) for a in e["args"]]
        r = self.on_call(q, e, args, op if op is not None else ov)
        if r is not None:
            return r
        if fn is not None or e.get("virt"):
            targets = []
            if fn is not None:
                targets.append(fn)
            if e.get("virt"):
                targets += [self.prog.fns[k] for k in self.all_over(e.get("key")) if k in self.prog.fns]
            targets = [t for t in targets if t.qn not in self.opaque and self.can_inline(t)]
            if targets and op is not None:
                return self.call_virtual(targets, op, args, e)
            if fn is not None and op is not None and not e.get("virt") and rwkey(fn) in self.rw:
                return self.rw_call(fn, op, args, e)
        if op is not None:
            if n in ("size", "rows", "cols", "length"):
                sv = self.store.get(op)
                if isinstance(sv, ListV):
                    return Poly.const(len(sv.items))
                if isinstance(sv, (Ptr, Ref)):
                    op = sv.path
                return self.size_of(op, n, e)
            if n == "data" or n == "begin" or n == "c_str":
                sv = self.store.get(op)
                if isinstance(sv, Str):
                    return sv
                if isinstance(sv, Ptr):
                    return sv
                if isinstance(sv, Opq) and n == "c_str":
                    return sv
                if n == "c_str":
                    return self.rv(o)
                return Ptr(op, ZERO)
            if n == "end":
                return Ptr(op, self.size_of(op, "size", e))
            if n in ("setZero", "setConstant", "resize", "fill", "setOnes", "assign", "clear", "conservativeResize", "reset", "emplace", "setLinSpaced"):
                if not self.dry:
                    self.on_array(op, n, [v for v, _ in args], e)
                vals = [v for v, _ in args]
                op = self.view_of(op)
                fillv = ZERO if n == "setZero" else ONE if n == "setOnes" else vals[-1] if n in ("setConstant", "fill") and vals else None
                if isinstance(fillv, Poly) and self.view_assign(op, fillv, e):
                    return Ref(op)
                keep = self.store.get(op + ("#size",)) if n in ("setZero", "setConstant", "fill", "setOnes") else None
                self.kill(op, (n,) + tuple(hv(v, lv) for v, lv in args))
                if keep is not None:
                    self.store[op + ("#size",)] = keep
                view = any(isinstance(x, tuple) and x[0] == "view" for x in op) or self._arr(op) < len(op)
                if not view:
                    eig = "Eigen" in q
                    el = None
                    dims = vals
                    if n == "setZero":
                        el = ZERO
                    elif n == "setOnes":
                        el = ONE
                    elif n in ("setConstant", "fill"):
                        el, dims = (vals[-1], vals[:-1]) if vals else (None, [])
                    elif n == "assign" and len(vals) == 2 and isinstance(vals[0], Poly):
                        el, dims = vals[1], vals[:1]
                    elif n == "resize" and not eig and len(vals) == 2:
                        el, dims = vals[1], vals[:1]
                    elif n == "resize" and not eig:
                        el = ZERO if vals and self.is_numeric_elem(o) else None
                    elif n == "clear":
                        self.store[op + ("#size",)] = ZERO
                        self.store[("reg",) + op] = ()
                        dims = []
                    elif n not in ("resize", "conservativeResize"):
                        dims = []
                    if isinstance(el, (Poly, Cond)):
                        self.store[("reg",) + op] = (("all", el),)
                    elif n == "resize":
                        self.store[("reg",) + op] = (("resized",),)
                    if n in ("resize", "setZero", "setConstant", "setOnes", "assign", "conservativeResize"):
                        sz = self.prod(dims)
                        if eig:
                            self.set_dims(op, dims)
                        if sz is not None:
                            self.store[op + ("#size",)] = sz
                            for w in self.wlog:
                                w.add(op + ("#size",))
                return Ref(op) if n not in ("resize", "clear", "reset") else None
            if n in ("push_back", "emplace_back") and not any(isinstance(x, tuple) and x[0] == "view" for x in op):
                if not self.dry:
                    self.on_array(op, n, [v for v, _ in args], e)
                self.unlist(op)
                sp = op + ("#size",)
                sz = self.store.get(sp)
                if sz is None:
                    sz = self.entry_value(sp)
                val = args[0][0] if len(args) == 1 else (ListV([v for v, _ in args]) if args else None)
                el = op + (("[]", sz),)
                if isinstance(val, Ref):
                    self.write(el, None, e, "push")
                    self.store.pop(el, None)
                    self.copy_object(el, val.path)
                else:
                    self.write(el, val, e, "push")
                self.write(sp, sz + ONE, e, "push")
                return Ref(el)
            if n in ("insert", "append", "pop_back", "erase", "swap"):
                if not self.dry:
                    self.on_array(op, n, [v for v, _ in args], e)
                self.kill(op, (n,) + tuple(hv(v, lv) for v, lv in args))
                return Ref(op)
            if n in ("sum", "prod", "squaredNorm", "norm", "dot", "maxCoeff", "minCoeff", "mean") and self.is_numeric(self.ty(e)):
                r = self.eig_reduce(n, Ref(op), [v for v, _ in args], e)
                if r is not None:
                    return r
            if n in ("segment", "head", "tail", "row", "col", "array", "matrix", "noalias", "transpose", "topRows", "middleRows", "leftCols", "block", "eval"):
                v = self.view(e)
                if v is not None:
                    return Ref(v)
            if n in ("has_value", "ok", "operator bool", "empty", "isZero"):
                sv = self.store.get(op)
                if isinstance(sv, Opq):
                    try:
                        hash(sv)
                        return Cond(self.status_q(n, sv))
                    except TypeError:
                        pass
                if isinstance(sv, (Ptr, Ref)):
                    op = sv.path
                return Cond(("b", ("q", n, op, self.ver_of(op))))
            if not e.get("const") and not n.startswith("operator "):
                if not self.dry:
                    self.on_write(op, None, e, "mcall:" + n)
                self.kill(op, (n,) + tuple(hv(v, lv) for v, lv in args))
        self.opaque_effects(e, args)
        t = self.ty(e)
        base = Ref(op) if op is not None else ov
        if self.is_numeric(t):
            vals = (base, self.ver_of(op) if op else 0) + tuple(v for v, _ in args)
            try:
                hash(vals)
            except TypeError:
                return self.fresh("call")
            p = Poly.atom(("call", q, vals))
            if strip_ty(t) == "bool":
                return Cond(self.as_cond(p))
            return p
        if t == "void":
            return None
        return Opq(q, [base] + [v for v, _ in args])

    def on_array(self, path, meth, args, node): pass

    def is_numeric_elem(self, o):
        t = self.ty(o) or ""
        return "vector<double" in t or "vector<int" in t

    def assign_fill(self, p, v, e):
        f = self.fill_of(v)
        if f is None and self.elemval(v, [Poly.atom(("rv", ("map", 0), "k"))]) is None:
            return False
        if not self.dry:
            self.on_write(p, v, e)
        for w in self.wlog:
            w.add(p + (("[]", ZERO),))
        if f is None:
            return self.map_assign(p, v, e)
        self.drop(p)
        self.store[("ver",) + p] = self.store.get(("ver",) + p, 0) + 1
        if f[1] is not None:
            self.store[("reg",) + p] = (("all", f[1]),)
        else:
            self.store[("reg",) + p] = (("resized",),)
        if f[0] is not None:
            self.store[p + ("#size",)] = f[0]
        self.set_dims(p, v)
        return True

    def eig_reduce(self, n, v, args, e):
        if n not in ("sum", "dot", "squaredNorm", "norm"):
            return None
        b = Poly.atom(("bv", 1))
        x = self.elemval(v, [b])
        if x is None:
            return None
        if n == "dot":
            y = self.elemval(args[0], [b]) if args else None
            if y is None:
                return None
            x = x * y
        elif n in ("squaredNorm", "norm"):
            x = x * x
        if bvheight(x) > 1:
            return None
        p = v.path
        if p and isinstance(p[-1], tuple) and p[-1][0] == "view":
            if p[-1][1] == "segment":
                cnt = p[-1][3]
            elif p[-1][1] == "head":
                cnt = p[-1][2]
            else:
                return None
        else:
            cnt = self.size_of(p, "size", e)
        r = sum_over(cnt, x, 1)
        return Poly.atom(("fn", "sqrt", r)) if n == "norm" else r

    def note_held(self, q, arg, v):
        """A StatusOr / optional built from a plain value holds it."""
        t = self.ty(arg) or ""
        if "Status" in t or "nullopt" in t:
            return
        try:
            if q.startswith("absl::StatusOr"):
                self.held.add(("ok", v))
            if "optional<" not in t:
                self.held.add(("has_value", v))
        except TypeError:
            pass

    def status_q(self, n, v):
        """Outcome of a query on a status-like value."""
        if isinstance(v, Ref) and v.path and str(v.path[-1]).find("nullopt") >= 0:
            return TRUE if n == "ok" else FALSE
        if n in ("ok", "has_value") and (n, v) in self.held:
            return TRUE
        if n == "has_value" and isinstance(v, Opq) and v.name.startswith("absl::") and v.name.endswith("Error"):
            return FALSE
        if isinstance(v, Opq):
            if v.name == "phi" and len(v.args) == 3 and isinstance(v.args[0], Cond):
                c = v.args[0].c
                return or_([and_([c, self.status_q(n, v.args[1])]), and_([not_(c), self.status_q(n, v.args[2])])])
            if n == "ok":
                if v.name.startswith("absl::") and v.name.endswith("Error"):
                    return FALSE
                if v.name in ("absl::OkStatus", "ctor:absl::Status") and not v.args:
                    return TRUE
                if v.name in ("absl::StatusOr", "ctor:absl::StatusOr") and len(v.args) == 1 and isinstance(v.args[0], Opq) and v.args[0].name.startswith("absl::"):
                    return self.status_q(n, v.args[0])
        return ("b", ("q", n, v))

    def size_of(self, op, n, e):
        sv = self.store.get(op + ("#size",))
        if sv is not None and n == "size":
            return sv
        if n in ("rows", "cols"):
            sv = self.store.get(op + ("#" + n,))
            if sv is not None:
                return sv
        return Poly.atom(("size" if n in ("size", "length") else n, op, self.ver_of(op)))

    def all_over(self, key):
        out, todo = [], [key]
        while todo:
            k = todo.pop()
            for x in self.prog.overriders.get(k, []):
                if x not in out:
                    out.append(x)
                    todo.append(x)
        return out

    def call_virtual(self, targets, op, args, e):
        if len(targets) == 1:
            return self.call_repo(targets[0], op, args, e)
        res = []
        t0 = targets[0]

        def rec(i):
            if i == len(targets) - 1:
                return self.call_repo(targets[i], op, args, e)
            box = {}
            c = ("b", ("dyn", targets[i].qn))
            self.branch(c, lambda: box.__setitem__("a", self.call_repo(targets[i], op, args, e)),
                        lambda: box.__setitem__("b", rec(i + 1)))
            a, b = box.get("a"), box.get("b")
            return a if a == b else (self.phi(c, a, b) if a is not None and b is not None else None)

        return rec(0)

    def e_opcall(self, e, discard=False):
        op = e["op"]
        q = e.get("qn", "")
        a = e["args"]
        fn = self.repo_fn(e)
        if op == "()" and self.is_lambda(a[0]):
            f = self.rv(a[0])
            if isinstance(f, Ref):
                f = self.store.get(f.path, f)
            args = [(self.rv(x), self.lv_arg(x)) for x in a[1:]]
            r = self.on_call("<lambda>", e, args, None)
            if r is not None:
                return r
            if isinstance(f, Lam):
                return self.call_lambda(f, args, e)
            self.opaque_effects({"args": a[1:]}, args)
            return self.result(e, "lambda", args)
        if fn is None and op in ("[]", "()"):
            r = self.on_call(q, e, [(None, None)] * len(a), None)
            if r is not None:
                return r
            p = self.lv(e)
            return self.rvpath(p, e)
        if op in ("*", "->") and len(a) == 1:
            r = self.on_call(q, e, [(self.rv(a[0]), self.lv(a[0]))], None)
            if r is not None:
                return r
            v = self.rv(a[0])
            if op == "->":
                return v
            p = self.lv(e)
            if p is not None:
                return self.rvpath(p, e)
            return v
        if op == "=" and len(a) == 2:
            if fn is not None and q not in self.opaque and self.can_inline(fn):
                args = [(self.rv(a[1]), self.lv_arg(a[1]))]
                p = self.lvbase(a[0])
                if p is not None:
                    return self.call_repo(fn, p, args, e)
            v = self.rv(a[1])
            if not isinstance(v, (Str, ListV, Obj, Poly, Cond, Lam, Ptr)):
                lv = self.lv_arg(a[1])
                if lv is not None:
                    v = Ref(lv)
            p = self.lv(a[0])
            if p is None and a[0]["k"] not in ("ref", "mem"):
                t0 = self.rv(a[0])
                if isinstance(t0, Ref):
                    p = t0.path
            p = self.view_of(p)
            r = self.on_call(q, e, [(None, p), (v, None)], None)
            if p is not None:
                vw = p[-1] if isinstance(p[-1], tuple) and p[-1][0] == "view" else None
                if vw is not None:
                    done = False
                    if not self.dry:
                        self.on_write(p, v, e)
                    done = self.view_assign(p, v, e)
                    if not done:
                        self.kill(p, ("set", hv(v)))
                        for w in self.wlog:
                            w.add(p[:-1] + (("[]", ZERO),))
                elif isinstance(v, Ref) and not ("*" in (self.ty(a[0]) or "") or any(x in (self.ty(a[0]) or "") for x in ("span<", "string_view", "unique_ptr", "shared_ptr"))):
                    if not self.dry:
                        self.on_write(p, v, e)
                    for w in self.wlog:
                        w.add(p)
                        if "Eigen" in q or "vector" in q:
                            w.add(p + (("[]", ZERO),))
                    if v.path != p:
                        self.copy_object(p, v.path)
                elif isinstance(v, Opq) and self._arr(p) == len(p) and self.assign_fill(p, v, e):
                    pass
                else:
                    self.write(p, v, e)
                    if not isinstance(v, (Str, ListV, Obj, Lam, Poly, Cond, Ptr)) and p[0][0] != "loc":
                        self.store.pop(p, None)
                        if self._arr(p) == len(p) and ("Eigen" in q or "vector" in q):
                            self.store[("reg",) + p] = (("eff", (), ("set", hv(v))),)
            return Ref(p) if p is not None else v
        args = [(self.rv(x), self.lv_arg(x)) for x in a]
        r = self.on_call(q, e, args, None)
        if r is not None:
            return r
        if fn is not None and q not in self.opaque and self.can_inline(fn):
            if fn.cls:
                p = self.lvbase(a[0])
                return self.call_repo(fn, p, args[1:], e)
            return self.call_repo(fn, None, args, e)
        if op in ("==", "!="):
            if isinstance(args[0][0], Str) and isinstance(args[1][0], Str):
                return Cond(self.compare(op, args[0][0], args[1][0]))
            return Cond(self.compare(op, *[x if x is not None else Opq("none") for x, _ in args]))
        if op in ("+=", "-=", "*=", "/="):
            p = self.lv(a[0])
            if op == "+=" and isinstance(args[0][0], Str) and isinstance(args[1][0], Str) and p is not None:
                v = Str(args[0][0].s + args[1][0].s)
                self.write(p, v, e, op)
                return v
            if p is None and a[0]["k"] not in ("ref", "mem") and isinstance(args[0][0], Ref):
                p = args[0][0].path
            p = self.view_of(p)
            if p is not None:
                if not self.dry:
                    self.on_write(p, None, e, op)
                x = args[1][0] if args[1][0] is not None else (Ref(args[1][1]) if args[1][1] is not None else None)
                if self.view_assign(p, Opq("op" + op[0], (Ref(p), x)), e):
                    return Ref(p)
                self.kill(p, (op,) + tuple(hv(v, lv) for v, lv in args[1:]))
            return Ref(p) if p else None
        if op == "<<" or op == ">>":
            if op == ">>" and args[1][1] is not None:
                self.write(args[1][1], None, e, ">>")
            return args[0][0] if args[0][0] is not None else (Ref(args[0][1]) if args[0][1] else None)
        if op == "+" and isinstance(args[0][0], Str) and isinstance(args[1][0], Str):
            return Str(args[0][0].s + args[1][0].s)
        t = self.ty(e)
        if self.is_numeric(t):
            return self.result(e, "op" + op, args)
        return Opq("op" + op, [v for v, _ in args])


class _BoundLam:
    def __init__(self, lam, body):
        self.fr = lam.fr
        self.body = body
        self.node = lam.node


EXPR_KINDS = {"ref", "mem", "opcall", "mcall", "call", "lambda", "bin", "un", "cond", "idx", "lit", "str", "this",
              "nullptr", "ctor", "init", "cast", "definit", "throw", "new", "delete"}
