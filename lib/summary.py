"""Canonical summaries of what a function computes.

summary(fn) -> {location: [normal form of each update]} for everything the
function writes that its caller can observe, plus its return value.  The normal
form is independent of local names, statement order, helper extraction, loop
spelling and loop-variable offsets.
"""
import itertools

from absint import Cond, Interp, ListV, Obj, Opq, Ptr, Ref, Str, SPECIAL
from sym import Poly, ZERO, deep, deep_path, not_


class Summ(Interp):
    final_join = True
    anon_params = True
    max_depth = 8


_RP = {}


def rpoly(p, env, depth=0):
    """Rendered text; kept for polynomials outside any binder."""
    if env:
        return rpoly1(p, env, depth)
    k = (id(p), depth)
    m = _RP.get(k)
    if m is None or m[0] is not p:
        if len(_RP) > 300000:
            _RP.clear()
        m = _RP[k] = (p, rpoly1(p, env, depth))
    return m[1]


def rpoly1(p, env, depth):
    if not p.t:
        return "0"
    out = []
    for m, c in p.t.items():
        fs = []
        for a, k in m:
            s = ratom(a, env, depth)
            fs.append(s if k == 1 else "%s^%d" % (s, k))
        fs.sort()
        cs = str(c.numerator) if c.denominator == 1 else rfrac(c)
        if not fs:
            out.append(cs)
        else:
            out.append("*".join(([cs] if c != 1 else []) + fs))
    out.sort()
    return " + ".join(out) if len(out) == 1 else "(" + " + ".join(out) + ")"


def rfrac(c):
    d = c.denominator
    return "%d/%d" % (c.numerator, c.denominator) if d < 10000 else "%.15g" % float(c)


def rval(v, env, depth=0):
    if isinstance(v, Poly):
        return rpoly(v, env, depth)
    if isinstance(v, Cond):
        return "{" + rcond(v.c, env, depth) + "}"
    if isinstance(v, Str):
        return repr(v.s)
    if isinstance(v, Ref):
        return "@" + rpath(v.path, env, depth)
    if isinstance(v, Ptr):
        return "&" + rpath(v.path, env, depth) + ("+" + rpoly(v.off, env, depth) if v.off is not None else "")
    if isinstance(v, ListV):
        return "[" + ", ".join(rval(x, env, depth) for x in v.items) + "]"
    if isinstance(v, Obj):
        return "{" + ", ".join("%s=%s" % (k, rval(x, env, depth)) for k, x in sorted(v.f.items())) + "}"
    if isinstance(v, Opq):
        n = v.name.split("<")[0]
        return "%s(%s)" % (n, ", ".join(rval(x, env, depth) for x in v.args))
    if v is None:
        return "none"
    if isinstance(v, tuple):
        if len(v) == 4 and v[0] == "loc":
            return "$"
        return "<" + ",".join(rval(x, env, depth) for x in v) + ">"
    return str(v)


def rpath(p, env, depth=0):
    s = ""
    for i, x in enumerate(p):
        if i == 0:
            if isinstance(x, tuple):
                if x[0] == "loc":
                    s = "$"
                elif x[0] == "this":
                    s = "this"
                elif x[0] == "heap":
                    s = "heap"
                else:
                    s = str(x[-1])
            else:
                s = str(x)
        elif isinstance(x, str):
            s += "." + x
        elif x[0] == "[]":
            s += "[" + ", ".join(rval(y, env, depth) for y in x[1:]) + "]"
        else:
            s += "." + rval(x, env, depth)
    return s


def uname(n):
    return n.rstrip("0123456789")


UNRES = ("u", "m", "k")


def ratom(a, env, depth=0):
    k = a[0]
    if a in env:
        return env[a]
    if k == "ld":
        ver = a[2]
        s = rpath(a[1], env, depth)
        if ver == 0 or ver is None:
            return s
        if isinstance(ver, tuple) and ver[0] == "car":
            return s + "'"
        if isinstance(ver, tuple) and ver[0] == "acc":
            return s + "'"
        if ver == ("new",):
            return s + "@new"
        if isinstance(ver, tuple) and ver[0] == "st":
            return s + "@" + ver[1]
        return s + "@?"
    if k == "u":
        return "?" + uname(a[1]) + ("(%s)" % ", ".join(rval(x, env, depth) for x in a[2]) if len(a) > 2 else "")
    if k == "acc":
        return "acc:" + rpath(a[2], env, depth) if len(a) > 2 else "acc"
    if k == "bv":
        return "b%s" % (a[1],)
    if k == "lv":
        return "lv?"
    if k == "rv":
        return "rv?"
    if k == "ite":
        return "ite(%s; %s; %s)" % (rcond(a[1], env, depth), rpoly(a[2], env, depth), rpoly(a[3], env, depth))
    if k == "bool":
        return "{%s}" % rcond(a[1], env, depth)
    if k == "sum":
        return "sum[%s](%s)" % (rpoly(a[1], env, depth), rpoly(a[2], env, depth))
    if k in ("max", "min"):
        return "%s(%s)" % (k, ", ".join(sorted(rpoly(x, env, depth) for x in a[1:])))
    if k in ("size", "rows", "cols"):
        return "%s(%s)" % (k, rpath(a[1], env, depth))
    if k == "val":
        return rval(a[1], env, depth)
    parts = []
    for x in a[1:]:
        if isinstance(x, Poly):
            parts.append(rpoly(x, env, depth))
        elif isinstance(x, tuple) and x and x[0] in ("cmp", "b", "and", "or", "not", "true", "false"):
            parts.append(rcond(x, env, depth))
        elif isinstance(x, tuple):
            parts.append(rval(x, env, depth))
        else:
            parts.append(rval(x, env, depth))
    return "%s(%s)" % (k if k != "fn" else parts.pop(0), ", ".join(parts))


def rcond(c, env, depth=0):
    if c[0] == "cmp":
        return "%s %s 0" % (rpoly(c[2], env, depth), c[1])
    if c[0] == "b":
        return ratom(c[1], env, depth) if isinstance(c[1], tuple) else str(c[1])
    if c[0] == "not":
        return "!(%s)" % rcond(c[1], env, depth)
    if c[0] in ("and", "or"):
        return "(" + (" && " if c[0] == "and" else " || ").join(sorted(rcond(x, env, depth) for x in c[1])) + ")"
    return c[0]


def render_update(vars_, path, val):
    """Canonical text of: for all vars, path = val."""
    best = None
    vs = [v for v, _ in vars_]
    ns = dict(vars_)
    perms = itertools.permutations(range(len(vs))) if len(vs) <= 3 else [range(len(vs))]
    for perm in perms:
        env = {vs[i]: "i%d" % perm[i] for i in range(len(vs))}
        dom = sorted("i%d<%s" % (perm[i], rpoly(ns[vs[i]], env)) for i in range(len(vs)))
        t = "%s{%s} = %s" % (rpath(path, env), ", ".join(dom), rval(val, env))
        if best is None or t < best:
            best = t
    return best


def observable(path):
    r = path[0]
    return not (isinstance(r, tuple) and r[0] in ("loc", "heap"))
