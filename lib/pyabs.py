"""Abstract interpreter for the repository's Python package.

Each function is interpreted once over symbolic terms (pyterm).  The result is
an effect summary: the returned value, the conditions under which it raises, and
the effects on objects that outlive the call (attribute and item stores, calls
with effects, file-system operations, yields), each with the condition and the
loops it happens under.  Helper functions are inlined, local names, statement
order and the spelling of loops disappear.
"""
import ast
import os

from pyterm import FALSE, K, NONE, T, TRUE, Term, and_, bvs, has, is_k, ite, kval, not_, or_, order, subst

OPS = {ast.Add: "+", ast.Sub: "-", ast.Mult: "*", ast.Div: "/", ast.FloorDiv: "//", ast.Mod: "%", ast.Pow: "**",
       ast.BitAnd: "&", ast.BitOr: "|", ast.BitXor: "^", ast.LShift: "<<", ast.RShift: ">>", ast.MatMult: "@"}

PURE_METHODS = set("""
copy astype reshape ravel flatten sum prod min max mean std dot transpose tolist item any all argmax argmin argsort cumsum round squeeze
get items keys values startswith endswith strip lstrip rstrip split rsplit splitlines lower upper title join replace format
removesuffix removeprefix encode decode ljust rjust zfill count index find isdigit isalpha
exists is_file is_dir resolve absolute with_name with_suffix with_stem joinpath relative_to as_posix expanduser
model_dump model_dump_json model_copy model_validate model_json_schema
tobytes view nonzero conj real imag fill_diagonal diagonal isatty cwd union intersection difference issubset isdisjoint
symmetric_difference bit_length hex from_file from_wout_file default total_seconds
""".split())
STRMUT = {"append", "extend", "insert", "update", "setdefault", "pop", "popitem", "clear", "sort", "reverse", "add", "discard", "remove", "fill"}
PURE_ROOTS = ("numpy.", "math.", "builtins.", "typing.", "pathlib.", "json.dumps", "json.loads", "copy.", "itertools.", "functools.",
              "collections.", "dataclasses.", "enum.", "pydantic.", "pydantic_core.", "jaxtyping.", "importlib.", "types.", "re.", "inspect.", "string.",
              "operator.", "base64.", "textwrap.", "scipy.", "os.path.", "os.getpid", "os.access", "os.getcwd", "os.environ",
              "os.fspath", "numbers.", "annotated_types.", "argparse.", "platform.", "simsopt.")
FS_METHODS = {"write_text", "write_bytes", "unlink", "rename", "mkdir", "rmdir", "touch", "read_text", "read_bytes", "open", "chmod", "symlink_to"}
BUILTINS = set(dir(__builtins__)) if not isinstance(__builtins__, dict) else set(__builtins__)
LOGGERS = {"logger", "_logger", "logging", "LOGGER", "log"}


class Unsupported(Exception):
    pass


class Fn:
    def __init__(self, qual, node, mod, cls=None):
        self.qual, self.node, self.mod, self.cls = qual, node, mod, cls
        decs = [ast.unparse(d) for d in node.decorator_list]
        self.static = "staticmethod" in decs
        self.classm = "classmethod" in decs
        self.prop = any(d in ("property", "cached_property", "functools.cached_property") or d.endswith(".getter") for d in decs)
        self.setter = any(d.endswith(".setter") for d in decs)
        self.ctx = any("contextmanager" in d for d in decs)
        self.decs = [d for d in decs]
        a = node.args
        self.params = [x.arg for x in a.posonlyargs + a.args]
        self.kwonly = [x.arg for x in a.kwonlyargs]
        self.vararg = a.vararg.arg if a.vararg else None
        self.kwarg = a.kwarg.arg if a.kwarg else None
        self.defaults = dict(zip(self.params[len(self.params) - len(a.defaults):], a.defaults))
        self.defaults.update({k: d for k, d in zip(self.kwonly, a.kw_defaults) if d is not None})
        self.ann = {x.arg: x.annotation for x in a.posonlyargs + a.args + a.kwonlyargs if x.annotation is not None}

    @property
    def name(self):
        return self.qual.rsplit(".", 1)[-1]

    @property
    def public(self):
        n = self.name
        if self.cls and self.cls.split(".")[-1].startswith("_"):
            return False
        return not n.startswith("_") or (n.startswith("__") and n.endswith("__"))


class Mod:
    def __init__(self, name, path, tree):
        self.name, self.path, self.tree = name, path, tree
        self.names = {}        # local name -> qualified global
        self.consts = {}       # name -> ast expr


class Package:
    """All modules of the package, with name resolution."""

    def __init__(self, root):
        self.root = root
        self.mods, self.fns, self.classes = {}, {}, {}
        self.props = {}
        self.bad = []
        for fn in sorted(os.listdir(root)):
            if not fn.endswith(".py") or fn.startswith("test_"):
                continue
            name = "vmecpp" if fn == "__init__.py" else "vmecpp." + fn[:-3]
            with open(os.path.join(root, fn)) as f:
                tree = ast.parse(f.read(), fn)
            self.mods[name] = Mod(name, os.path.join("src/vmecpp", fn), tree)
        for m in self.mods.values():
            self.scan(m, m.tree.body)
        self.methods = {}
        for q, f in self.fns.items():
            if f.cls:
                self.methods.setdefault(f.name, []).append(f)

    def scan(self, m, body):
        for s in body:
            if isinstance(s, ast.Import):
                for a in s.names:
                    m.names[a.asname or a.name.split(".")[0]] = a.name if a.asname else a.name.split(".")[0]
            elif isinstance(s, ast.ImportFrom):
                base = s.module or ""
                if s.level:
                    base = "vmecpp" + ("." + base if base else "")
                for a in s.names:
                    m.names[a.asname or a.name] = base + "." + a.name
            elif isinstance(s, (ast.FunctionDef, ast.AsyncFunctionDef)):
                q = m.name + "." + s.name
                m.names[s.name] = q
                self.fns[q] = Fn(q, s, m)
            elif isinstance(s, ast.ClassDef):
                q = m.name + "." + s.name
                m.names[s.name] = q
                self.classes[q] = (s, m)
                todo = list(s.body)
                while todo:
                    x = todo.pop(0)
                    if isinstance(x, ast.If):
                        todo = x.body + x.orelse + todo
                    if isinstance(x, ast.FunctionDef):
                        f = Fn(q + "." + x.name + (".setter" if any(ast.unparse(d).endswith(".setter") for d in x.decorator_list) else ""), x, m, q)
                        self.fns[f.qual] = f
                        if f.prop:
                            self.props[q + "." + x.name] = f
            elif isinstance(s, (ast.Assign, ast.AnnAssign)):
                ts = s.targets if isinstance(s, ast.Assign) else [s.target]
                for t in ts:
                    if isinstance(t, ast.Name) and s.value is not None:
                        m.consts[t.id] = s.value
                        m.names.setdefault(t.id, m.name + "." + t.id)
            elif isinstance(s, (ast.If, ast.Try, ast.With)):
                for b in ("body", "orelse", "finalbody"):
                    self.scan(m, getattr(s, b, []))

    def resolve(self, q):
        """Follow re-exports: vmecpp.run -> defining name."""
        for _ in range(8):
            if q in self.fns or q in self.classes:
                return q
            i = q.rfind(".")
            while i > 0:
                m = self.mods.get(q[:i])
                if m is not None:
                    rest = q[i + 1:].split(".")
                    n = m.names.get(rest[0])
                    if n is not None and n != q[:i] + "." + rest[0]:
                        q = ".".join([n] + rest[1:])
                        break
                    return q
                i = q.rfind(".", 0, i)
            else:
                return q
        return q

    def method(self, cls, name):
        seen = set()
        todo = [cls]
        while todo:
            c = todo.pop(0)
            if c in seen or c not in self.classes:
                continue
            seen.add(c)
            f = self.fns.get(c + "." + name)
            if f is not None:
                return f
            node, m = self.classes[c]
            for b in node.bases:
                q = ast.unparse(b)
                head = q.split(".")[0]
                if head in m.names:
                    q = self.resolve(".".join([m.names[head]] + q.split(".")[1:]))
                todo.append(q)
        return None


class State:
    __slots__ = ("env", "heap", "chan")

    def __init__(self, env, heap, chan):
        self.env, self.heap, self.chan = env, heap, chan

    def copy(self):
        return State(dict(self.env), dict(self.heap), dict(self.chan))


class Obj:
    """Reference to a locally created mutable object."""
    __slots__ = ("n",)

    def __init__(self, n):
        self.n = n


class FnVal:
    def __init__(self, node, env, fr, name):
        self.node, self.env, self.fr, self.name = node, env, fr, name


class Frame:
    def __init__(self, fn, mod):
        self.fn, self.mod = fn, mod
        self.rets = []
        self.raises = []
        self.g0 = 0
        self.types = {}
        self.ints = set()
        self.globals = set()


MAXU = 40
# one function under several names
ALIAS = {"numpy.abs": "builtins.abs", "numpy.absolute": "builtins.abs", "math.fabs": "builtins.abs", "numpy.fabs": "builtins.abs",
         "numpy.amax": "numpy.max", "numpy.amin": "numpy.min", "numpy.around": "numpy.round", "numpy.round_": "numpy.round",
         "numpy.power": "builtins.pow", "math.pow": "builtins.pow", "numpy.row_stack": "numpy.vstack", "numpy.product": "numpy.prod",
         "numpy.float64": "builtins.float", "numpy.math.pi": "numpy.pi", "math.pi": "numpy.pi", "math.inf": "numpy.inf", "math.nan": "numpy.nan",
         **{"math." + x: "numpy." + x for x in ("sqrt", "exp", "log", "sin", "cos", "tan", "floor", "ceil", "trunc", "isnan", "isinf", "isfinite", "hypot", "copysign")},
         "numpy.alltrue": "numpy.all", "numpy.sometrue": "numpy.any", "os.unlink": "os.remove", "numpy.asfarray": "numpy.asarray",
         "numpy.swapaxes2": "numpy.swapaxes", "collections.abc.Mapping": "typing.Mapping"}


class Interp:
    def __init__(self, pkg, opaque, deep=False, effects=None):
        self.pkg = pkg
        self.opaque = opaque          # qualified names treated as atomic when not deep
        self.deep = deep
        self.effects = effects if effects is not None else (lambda q: ())
        self.guards = []
        self.st = State({}, {}, {})
        self.nobj = 0
        self.level = 0
        self.dead = False
        self.loops = []
        self.raises = []              # (type, guard, loops)
        self.ctx = ()
        self.stack = []
        self.bad = []
        self.tries = {}
        self.types = {}
        self.ints = set()
        self.steps = 0

    # ------------------------------------------------------------ driver
    def run(self, fn):
        fr = Frame(fn, fn.mod)
        self.fr = fr
        self.stack = [fn.qual]
        for i, p in enumerate(fn.params + fn.kwonly):
            v = T("v", p)
            if i == 0 and fn.cls and not fn.static:
                v = T("v", "self") if not fn.classm else T("g", fn.cls)
                if not fn.classm:
                    self.types[v.id] = fn.cls
            self.st.env[p] = v
            if self.intann(fn.ann.get(p)):
                self.ints.add(v.id)
            c = self.ann_class(fn.ann.get(p), fn.mod)
            if c and v.id not in self.types:
                self.types[v.id] = c
        for p in (fn.vararg, fn.kwarg):
            if p:
                self.st.env[p] = T("v", "*" + p)
        self.block(fn.node.body)
        ret = self.merge_rets(fr.rets)
        sig = []
        for p in fn.params + fn.kwonly:
            sig.append(T("param", p, self.modexpr(fn.defaults[p], fn.mod) if p in fn.defaults else T("none")))
        ev = {}
        for root, us in self.st.chan.items():
            if us:
                ev[root] = list(us)
        return {"sig": sig, "ret": ret, "ev": ev, "raises": list(self.raises), "bad": sorted(set(self.bad)),
                "decs": sorted(d for d in fn.decs if not d.startswith("typing."))}

    def ann_class(self, a, mod):
        if a is None:
            return None
        if isinstance(a, ast.Constant) and isinstance(a.value, str):
            try:
                a = ast.parse(a.value, mode="eval").body
            except SyntaxError:
                return None
        if isinstance(a, ast.BinOp) and isinstance(a.op, ast.BitOr):
            xs = [self.ann_class(x, mod) for x in (a.left, a.right)]
            xs = [x for x in xs if x]
            return xs[0] if len(xs) == 1 else None
        if isinstance(a, (ast.Name, ast.Attribute)):
            q = ast.unparse(a)
            h = q.split(".")[0]
            if h in mod.names:
                q = self.pkg.resolve(".".join([mod.names[h]] + q.split(".")[1:]))
                if q in self.pkg.classes:
                    return q
        return None

    def modexpr(self, e, mod):
        """Value of an expression in module scope."""
        old = (self.st, self.fr)
        self.st = State({}, {}, {})
        self.fr = Frame(None, mod)
        try:
            return self.snap(self.ex(e))
        finally:
            self.st, self.fr = old

    def merge_rets(self, rets):
        if not rets:
            return NONE
        r = rets[-1][1]
        for g, v in reversed(rets[:-1]):
            r = ite(and_(g), v, r)
        return r

    def guard(self):
        return and_(self.guards)

    # ------------------------------------------------------------ statements
    def block(self, body):
        for s in body:
            if self.dead:
                return
            self.steps += 1
            if self.steps > 200000:
                raise Unsupported("too many steps")
            m = getattr(self, "s_" + type(s).__name__, None)
            if m is None:
                self.bad.append("statement " + type(s).__name__)
                continue
            m(s)

    def s_Expr(self, s):
        if isinstance(s.value, ast.Constant):
            return
        before = (dict(self.st.chan), dict(self.st.heap), self.dead)
        v = self.ex(s.value)
        if isinstance(v, Term) and v.op in ("call", "meth") and before == (self.st.chan, self.st.heap, self.dead):
            # a call made for its effect alone
            self.event("local", T("mcall", self.guard(), "do", v))

    def s_Pass(self, s):
        pass

    def s_Import(self, s):
        for a in s.names:
            self.st.env[a.asname or a.name.split(".")[0]] = T("g", a.name if a.asname else a.name.split(".")[0])

    def s_ImportFrom(self, s):
        base = s.module or ""
        if s.level:
            base = "vmecpp" + ("." + base if base else "")
        for a in s.names:
            self.st.env[a.asname or a.name] = T("g", self.pkg.resolve(base + "." + a.name))

    def s_Global(self, s):
        self.fr.globals |= set(s.names)

    def s_Nonlocal(self, s):
        self.bad.append("nonlocal")

    def s_FunctionDef(self, s):
        self.st.env[s.name] = FnVal(s, self.st.env, self.fr, s.name)

    def s_ClassDef(self, s):
        self.bad.append("local class")

    def s_Return(self, s):
        v = self.snap(self.ex(s.value)) if s.value is not None else NONE
        self.fr.rets.append((tuple(self.guards[self.fr.g0:]), v))
        self.note_exit("ret", v)
        self.dead = True

    def note_exit(self, kind, v):
        for l in self.loops[self.fr_l0():]:
            l["exit"].append((and_(self.guards[l["g0"]:]), kind, v))
            l.setdefault("deadst", []).append(self.st)

    def fr_l0(self):
        return getattr(self.fr, "l0", 0)

    def s_Raise(self, s):
        t = "?"
        if s.exc is None:
            t = "reraise"
        else:
            e = s.exc
            if isinstance(e, ast.Call):
                e = e.func
            t = ast.unparse(e).split(".")[-1]
            if isinstance(e, ast.Name) and e.id in self.st.env:
                t = "var"
        self.do_raise(t)

    def do_raise(self, t):
        self.raises.append(T("raise", self.guard(), t, *[T("in", l["count"], l["level"]) for l in self.loops]))
        self.fr.raises.append(and_(self.guards[self.fr.g0:]))
        for l in self.loops:
            l.setdefault("deadst", []).append(self.st)
        self.dead = True

    def s_Assert(self, s):
        c = self.cond(s.test)
        if c is TRUE:
            return
        self.guards.append(not_(c))
        self.raises.append(T("raise", self.guard(), "AssertionError", *[T("in", l["count"], l["level"]) for l in self.loops]))
        self.guards.pop()
        self.fr.raises.append(and_(self.guards[self.fr.g0:] + [not_(c)]))
        self.guards.append(c)

    def s_Delete(self, s):
        for t in s.targets:
            if isinstance(t, ast.Name):
                self.st.env.pop(t.id, None)
            elif isinstance(t, ast.Subscript):
                b = self.ex(t.value)
                self.mutate(b, "mcall", "pop", [self.index(t.slice)])
            else:
                self.bad.append("del attribute")

    def s_Assign(self, s):
        v = self.ex(s.value)
        if len(s.targets) > 1 or isinstance(s.targets[0], ast.Name):
            v = self.own(v)
        for t in s.targets:
            self.assign(t, v)

    def s_AnnAssign(self, s):
        if s.value is not None:
            v = self.ex(s.value)
            self.assign(s.target, self.own(v) if isinstance(s.target, ast.Name) else v)

    def s_AugAssign(self, s):
        o = OPS[type(s.op)]
        if isinstance(s.target, ast.Name):
            old = self.ex(ast.Name(s.target.id, ast.Load()))
            r = self.ex(s.value)
            if isinstance(old, Obj) and o == "+" and self.kind(old) == "list":
                self.update(old, T("mcall", self.guard(), "extend", self.snap(r)))
                return
            self.assign(s.target, self.own(self.arith(o, self.snap(old), self.snap(r))))
            return
        if isinstance(s.target, ast.Attribute):
            b = self.ex(s.target.value)
            old = self.snap(self.attr(b, s.target.attr))
            self.store(b, "at", s.target.attr, self.arith(o, old, self.snap(self.ex(s.value))))
            return
        b = self.ex(s.target.value)
        i = self.index(s.target.slice)
        old = self.snap(self.item(b, i))
        self.store(b, "it", i, self.arith(o, old, self.snap(self.ex(s.value))))

    def own(self, v):
        """A freshly computed value bound to a name becomes an object of its own."""
        if not isinstance(v, Term):
            return v
        if v.op in ("call", "list", "dict", "set", "op", "meth", "upd", "ite") and not (v.op == "meth" and v.args[1] in ("get",)):
            return self.new(v)
        return v

    def new(self, base):
        self.nobj += 1
        self.st.heap[self.nobj] = base
        return Obj(self.nobj)

    def kind(self, o):
        b = self.st.heap[o.n]
        while b.op == "upd":
            b = b.args[0]
        return b.op

    def assign(self, t, v):
        if isinstance(t, ast.Name):
            if t.id in self.fr.globals:
                g = T("g", self.fr.mod.name + "." + t.id)
                self.event(g, T("spath", self.guard(), g, T("self"), self.snap(v)))
                self.st.env["global " + t.id] = v
                return
            self.st.env[t.id] = v
        elif isinstance(t, (ast.Tuple, ast.List)):
            if any(isinstance(x, ast.Starred) for x in t.elts):
                n = len(t.elts)
                i = [isinstance(x, ast.Starred) for x in t.elts].index(True)
                for j, x in enumerate(t.elts):
                    if j < i:
                        self.assign(x, self.item(v, K(j)))
                    elif j > i:
                        self.assign(x, self.item(v, K(j - n)))
                    else:
                        self.assign(x.value, self.item(v, T("slice", K(i), K(i - n + 1) if i - n + 1 else NONE, NONE)))
                return
            for j, x in enumerate(t.elts):
                self.assign(x, self.item(v, K(j)))
        elif isinstance(t, ast.Attribute):
            self.store(self.ex(t.value), "at", t.attr, self.snap(v))
        elif isinstance(t, ast.Subscript):
            b = self.ex(t.value)
            self.store(b, "it", self.index(t.slice), self.snap(v))
        else:
            self.bad.append("target " + type(t).__name__)

    # stores and effects
    def store(self, b, kind, key, val):
        if isinstance(b, Obj):
            if kind == "at":
                self.update(b, T("sattr", self.guard(), key, val))
            else:
                self.update(b, T("sitem", self.guard(), key, val))
            return
        if isinstance(b, FnVal):
            self.bad.append("store on function")
            return
        # a slice/attribute of a local object
        b = self.strip(b)
        loc = self.owner(b)
        k = key if isinstance(key, Term) else T("name", key)
        if loc is not None:
            self.update(loc, T("spath", self.guard(), b, k, val))
            return
        prop = self.find_prop_setter(b, key) if kind == "at" and isinstance(key, str) else None
        if prop is not None and self.may_inline(prop):
            self.inline(prop, [b, val], {}, None)
            return
        self.event(self.root(b), T("spath", self.guard(), b, T("key", kind, k), val))

    def find_prop_setter(self, b, name):
        c = self.types.get(b.id)
        if c is None:
            return None
        return self.pkg.fns.get(c + "." + name + ".setter")

    def owner(self, b):
        """Local object a path term leads into, if it was taken from a variable."""
        while isinstance(b, Term) and b.op in ("at", "it"):
            b = b.args[0]
        return self.owners.get(b.id) if isinstance(b, Term) and hasattr(self, "owners") else None

    def root(self, t):
        while True:
            if t.op in ("at", "it"):
                t = t.args[0]
            elif t.op == "meth" and t.args[1] in ("reshape", "ravel", "view", "transpose", "items", "values", "get", "squeeze"):
                t = t.args[0]
            elif t.op == "call" and t.args[0].op == "g" and t.args[0].args[0] in ("numpy.asarray", "numpy.atleast_1d", "numpy.transpose", "numpy.ravel", "numpy.reshape", "builtins.iter", "builtins.next", "builtins.vars") and len(t.args) > 1:
                t = t.args[1]
            elif t.op == "upd":
                t = t.args[0]
            else:
                return t

    def event(self, root, u):
        key = root if isinstance(root, str) else self.chan_name(root)
        self.st.chan[key] = self.st.chan.get(key, ()) + (self.tag(u),)

    def tag(self, u):
        return T("ctx", u, *self.ctx) if self.ctx else u

    def chan_name(self, root):
        if root.op == "v":
            return "arg:" + root.args[0]
        if root.op == "g":
            return "global:" + root.args[0]
        return "local"

    def update(self, o, u):
        self.st.heap[o.n] = T("upd", self.st.heap[o.n], u)

    def snap(self, v):
        if isinstance(v, Obj):
            return self.st.heap[v.n]
        if isinstance(v, FnVal):
            return self.fnterm(v)
        return v

    def fnterm(self, f):
        """A function value is its body at opaque arguments."""
        node = f.node
        a = node.args
        ps = [x.arg for x in a.posonlyargs + a.args + a.kwonlyargs]
        saved = (self.st.copy(), list(self.guards), self.dead, self.fr, self.raises, list(self.stack), self.loops)
        self.level += 1
        try:
            self.raises = []
            self.loops = []
            r = self.call_closure(f, [T("bv", "p%d_%d" % (self.level, i)) for i in range(len(ps))], {})
            r = self.snap(r)
            # effects of the closure on captured state are not modelled beyond its value
            return T("fn", r, *self.raises)
        finally:
            self.level -= 1
            self.st, self.guards, self.dead, self.fr, self.raises, self.stack, self.loops = saved

    # control flow
    def s_If(self, s):
        c = self.cond(s.test)
        self.branch(c, lambda: self.block(s.body), lambda: self.block(s.orelse))

    def branch(self, c, a, b):
        if c is TRUE:
            a()
            return
        if c is FALSE:
            b()
            return
        base = self.st
        n = len(self.guards)
        self.st = base.copy()
        self.guards.append(c)
        a()
        d1, s1 = self.dead, self.st
        g1 = self.guards[n + 1:]
        del self.guards[n:]
        self.dead = False
        self.st = base.copy()
        self.guards.append(not_(c))
        b()
        d2, s2 = self.dead, self.st
        g2 = self.guards[n + 1:]
        del self.guards[n:]
        self.dead = False
        if d1 and d2:
            self.st = self.merge(c, s1, s2, base)
            self.dead = True
            return
        if d1:
            self.st = self.graft(s2, s1, base)
            self.guards += [not_(c)] + g2
            return
        if d2:
            self.st = self.graft(s1, s2, base)
            self.guards += [c] + g1
            return
        self.st = self.merge(c, s1, s2, base)
        x = or_([and_([c] + g1), and_([not_(c)] + g2)]) if g1 or g2 else TRUE
        if x is not TRUE:
            self.guards.append(x)

    def join_upd(self, a, b, base):
        """Updates of both branches after their common history (guards keep them apart)."""
        if a is b:
            return a
        seen = set()
        t = base
        seen.add(base.id)
        xs = []
        t = b
        while t.id != base.id:
            if t.op != "upd":
                return None
            xs.append(t.args[1])
            t = t.args[0]
        t = a
        while t.id != base.id:
            if t.op != "upd":
                return None
            t = t.args[0]
        r = a
        for u in reversed(xs):
            r = T("upd", r, u)
        return r

    def graft(self, keep, dead, base):
        """Continue with keep; effects made on the path that ended are still effects."""
        for k, us in dead.chan.items():
            b = base.chan.get(k, ())
            if us[:len(b)] == b and len(us) > len(b):
                kb = keep.chan.get(k, ())
                keep.chan[k] = kb[:len(b)] + us[len(b):] + kb[len(b):]
        return keep

    def merge(self, c, a, b, base):
        env, heap, chan = {}, {}, {}
        for n in set(a.heap) | set(b.heap):
            x, y, z = a.heap.get(n), b.heap.get(n), base.heap.get(n)
            if x is None or y is None:
                heap[n] = x if x is not None else y
            elif x is y:
                heap[n] = x
            else:
                j = self.join_upd(x, y, z) if z is not None else None
                heap[n] = j if j is not None else ite(c, x, y)
        for k in sorted(set(a.env) | set(b.env)):
            x, y = a.env.get(k), b.env.get(k)
            if x is None or y is None:
                v = x if x is not None else y
                env[k] = v
                continue
            if x is y or (isinstance(x, Obj) and isinstance(y, Obj) and x.n == y.n):
                env[k] = x
            elif isinstance(x, FnVal) or isinstance(y, FnVal):
                env[k] = x
            else:
                tx = a.heap[x.n] if isinstance(x, Obj) else x
                ty = b.heap[y.n] if isinstance(y, Obj) else y
                v = ite(c, tx, ty)
                if isinstance(x, Obj) or isinstance(y, Obj):
                    self.nobj += 1
                    heap[self.nobj] = v
                    v = Obj(self.nobj)
                env[k] = v
        for k in set(a.chan) | set(b.chan):
            z = base.chan.get(k, ())
            x, y = a.chan.get(k, ()), b.chan.get(k, ())
            chan[k] = z + x[len(z):] + y[len(z):]
        return State(env, heap, chan)

    # loops
    def assigned(self, nodes):
        out = set()

        def tgt(t):
            if isinstance(t, ast.Name):
                out.add(t.id)
            elif isinstance(t, (ast.Tuple, ast.List)):
                for x in t.elts:
                    tgt(x)
            elif isinstance(t, ast.Starred):
                tgt(t.value)

        def go(n):
            if isinstance(n, (ast.FunctionDef, ast.Lambda, ast.ListComp, ast.SetComp, ast.DictComp, ast.GeneratorExp)):
                if isinstance(n, ast.FunctionDef):
                    out.add(n.name)
                return
            if isinstance(n, ast.Assign):
                for t in n.targets:
                    tgt(t)
            elif isinstance(n, (ast.AugAssign, ast.AnnAssign)):
                tgt(n.target)
            elif isinstance(n, ast.For):
                tgt(n.target)
            elif isinstance(n, ast.withitem) and n.optional_vars is not None:
                tgt(n.optional_vars)
            elif isinstance(n, ast.NamedExpr):
                tgt(n.target)
            for c in ast.iter_child_nodes(n):
                go(c)
        for n in nodes:
            go(n)
        return out

    def domain(self, it):
        """(count, element at index i) of an iterable term."""
        it = self.snap(it)
        i = T("bv", self.level)
        if it.op == "call" and it.args[0].op == "g" and not any(x.op == "kw" for x in it.args[1:] if x.op == "kw" and x.args[0] not in ("strict", "start")):
            f = it.args[0].args[0]
            xs = [x for x in it.args[1:] if x.op != "kw"]
            if f == "builtins.range":
                if len(xs) == 1:
                    return xs[0], i
                a, b = xs[0], xs[1]
                st = xs[2] if len(xs) > 2 else K(1)
                if st is K(1):
                    return self.arith("-", b, a), self.arith("+", a, i)
                return T("rangelen", a, b, st), self.arith("+", a, self.arith("*", st, i))
            if f == "builtins.enumerate" and xs:
                c, e = self.domain(xs[0])
                s0 = xs[1] if len(xs) > 1 else next((x.args[1] for x in it.args[1:] if x.op == "kw" and x.args[0] == "start"), K(0))
                return c, T("tuple", i if s0 is K(0) else self.arith("+", s0, i), e)
            if f == "builtins.zip" and xs:
                ds = [self.domain(x) for x in xs]
                cs = []
                for c, _ in ds:
                    if c not in cs:
                        cs.append(c)
                return cs[0] if len(cs) == 1 else T("zipcount", *cs), T("tuple", *[e for _, e in ds])
            if f in ("builtins.list", "builtins.tuple", "builtins.iter") and len(xs) == 1:
                return self.domain(xs[0])
        if it.op == "meth" and len(it.args) <= 3 and it.args[1] in ("items", "keys", "values"):
            b = it.args[0]
            k = T("it", b, i)
            return self.length(b), {"keys": k, "values": T("it", b, k), "items": T("tuple", k, T("it", b, k))}[it.args[1]]
        if it.op in ("list", "tuple") and len(it.args) == 1 and it.args[0].op == "seg" and it.args[0].args[2] is TRUE and it.args[0].args[4] is NONE:
            s = it.args[0]
            lv = s.args[1]
            return s.args[0], subst(s.args[3], lambda t: i if t.op == "bv" and t.args[0] == lv else None)
        return self.length(it), T("it", it, i)

    def length(self, t):
        if t.op in ("list", "tuple") and all(x.op not in ("seg", "splice", "opt") for x in t.args):
            return K(len(t.args))
        if is_k(t) and isinstance(kval(t), str):
            return K(len(kval(t)))
        return T("call", T("g", "builtins.len"), t)

    def constant_items(self, it):
        """Items of an iterable that is known element by element."""
        t = self.snap(it)
        if t.op == "call" and t.args[0].op == "g" and t.args[0].args[0] in ("builtins.list", "builtins.tuple", "builtins.sorted", "builtins.set", "builtins.frozenset") and len(t.args) == 2:
            xs = self.constant_items(t.args[1])
            if xs is not None and t.args[0].args[0] == "builtins.sorted":
                if not all(is_k(x) for x in xs):
                    return None
                try:
                    return sorted(xs, key=kval)
                except TypeError:
                    return None
            return xs
        if t.op == "call" and t.args[0].op == "g" and t.args[0].args[0] == "builtins.enumerate" and len(t.args) == 2:
            xs = self.constant_items(t.args[1])
            return None if xs is None else [T("tuple", K(i), x) for i, x in enumerate(xs)]
        if t.op == "call" and t.args[0].op == "g" and t.args[0].args[0] == "builtins.zip":
            xs = [self.constant_items(x) for x in t.args[1:] if x.op != "kw"]
            if xs and all(x is not None for x in xs) and len({len(x) for x in xs}) == 1:
                return [T("tuple", *y) for y in zip(*xs)]
            return None
        if t.op == "call" and t.args[0].op == "g" and t.args[0].args[0] == "builtins.range":
            if all(is_k(x) and isinstance(kval(x), int) for x in t.args[1:]):
                r = range(*[kval(x) for x in t.args[1:]])
                if len(r) <= 8:
                    return [K(i) for i in r]
            return None
        if t.op == "op" and t.args[0] in ("-", "|", "&", "+") and len(t.args) == 3:
            a, b = self.constant_items(t.args[1]), self.constant_items(t.args[2])
            if a is None or b is None:
                return None
            if t.args[0] == "+":
                return a + b
            if not all(map(is_k, a + b)):
                return None
            r = [x for x in a if x not in b] if t.args[0] == "-" else [x for x in a if x in b] if t.args[0] == "&" else a + [x for x in b if x not in a]
            return sorted(r, key=lambda x: x.args[1])
        if t.op == "meth" and t.args[1] in ("items", "keys", "values") and t.args[0].op == "dict" and all(p.op == "pair" for p in t.args[0].args):
            ps = t.args[0].args
            return [{"items": T("tuple", *p.args), "keys": p.args[0], "values": p.args[1]}[t.args[1]] for p in ps]
        if t.op == "dict" and all(p.op == "pair" for p in t.args):
            return [p.args[0] for p in t.args]
        if t.op == "upd":
            t = self.flat(t)
        if t.op in ("tuple", "list", "set") and len(t.args) <= 400 and all(x.op not in ("seg", "splice", "opt") for x in t.args):
            if t.op == "set":
                if not all(is_k(x) for x in t.args):
                    return None
                return sorted(t.args, key=lambda x: x.args[1])
            return list(t.args)
        return None

    def flat(self, t):
        """List built by unconditional appends/extends -> list display."""
        if t.op != "upd":
            return t
        b, u = self.flat(t.args[0]), t.args[1]
        if b.op == "list" and u.op == "mcall" and u.args[0] is TRUE and len(u.args) == 3:
            if u.args[1] == "append":
                return T("list", *(b.args + (u.args[2],)))
            if u.args[1] == "extend":
                x = self.flat(u.args[2])
                if x.op in ("list", "tuple") and all(y.op not in ("seg",) for y in x.args):
                    return T("list", *(b.args + x.args))
        if b.op == "list" and u.op == "mcall" and len(u.args) == 3 and u.args[1] in ("append", "extend"):
            x = T("list", u.args[2]) if u.args[1] == "append" else self.flat(u.args[2])
            if x.op in ("list", "tuple") and all(y.op not in ("seg", "opt", "splice") for y in x.args):
                return T("list", *(b.args + tuple(T("opt", u.args[0], y) for y in x.args)))
        return t

    def s_For(self, s):
        it = self.ex(s.iter)
        items = self.constant_items(it)
        body = list(s.body)
        if items is None:
            fl = self.flat(self.snap(it)) if isinstance(it, (Obj, Term)) else None
            if fl is not None and fl.op in ("list", "tuple") and fl.args and all(x.op not in ("seg", "splice") for x in fl.args):
                items = [(x.args[0], x.args[1]) if x.op == "opt" else (TRUE, x) for x in fl.args]
        else:
            items = [(TRUE, x) for x in items]
        if items is not None and len(items) <= 400:
            self.unrolled(s, items, body)
            return
        self.loop(s, lambda: self.domain(it), lambda e: self.assign(s.target, e), body, None)
        if s.orelse and not self.dead:
            self.bad.append("for-else")

    def unrolled(self, s, items, body):
        brk = []
        n0 = len(self.guards)
        for g, x in items:
            if self.dead:
                break
            l = {"g0": len(self.guards), "exit": [], "count": K(len(items)), "level": -1, "unrolled": True, "brk": [], "cont": []}
            self.loops.append(l)

            def it():
                self.assign(s.target, x)
                self.block(body)
            n1 = len(self.guards)
            self.branch(g, it, lambda: None)
            self.loops.pop()
            extra = self.guards[n1:]
            if l["cont"]:
                # paths that said continue rejoin here
                conts = [st for _, st in l["cont"]]
                gs = [c for c, _ in l["cont"]]
                if self.dead:
                    st = conts[-1]
                    rest = list(zip(gs, conts))[:-1]
                    self.dead = False
                else:
                    st = self.st
                    rest = list(zip(gs, conts))
                for c, x2 in reversed(rest):
                    st = self.merge2(c, x2, st)
                self.st = st
                del self.guards[n1:]
                keep = [c for c in [self.loss(extra, gs)] if c is not TRUE]
                self.guards += keep
            if l["brk"]:
                brk += l["brk"]
        if brk:
            gs = [c for c, _ in brk]
            if self.dead:
                st = brk[-1][1]
                rest = brk[:-1]
                self.dead = False
            else:
                st, rest = self.st, brk
            for c, x2 in reversed(rest):
                st = self.merge2(c, x2, st)
            self.st = st
            extra = self.guards[n0:]
            del self.guards[n0:]
            k = self.loss(extra, gs)
            if k is not TRUE:
                self.guards.append(k)
        if s.orelse and not self.dead:
            self.block(s.orelse)

    def loss(self, extra, gs):
        """Condition under which control goes on: the path that fell through or one that jumped here."""
        a = and_(extra)
        if a is TRUE:
            return TRUE
        return or_([a] + gs)

    def merge2(self, c, a, b):
        """Merge a (under c) into b; both stem from a common history."""
        base = State({}, {n: self.common(a.heap.get(n), b.heap.get(n)) for n in set(a.heap) & set(b.heap)}, {})
        for k in set(a.chan) & set(b.chan):
            x, y = a.chan[k], b.chan[k]
            i = 0
            while i < len(x) and i < len(y) and x[i] is y[i]:
                i += 1
            base.chan[k] = x[:i]
        return self.merge(c, a, b, base)

    def common(self, x, y):
        def line(t):
            out = [t]
            while t.op == "upd":
                t = t.args[0]
                out.append(t)
            return out
        ids = {t.id: t for t in line(x)}
        for t in line(y):
            if t.id in ids:
                return t
        return None

    def s_While(self, s):
        if isinstance(s.test, ast.Constant) and not s.test.value:
            return
        self.loop(s, None, None, list(s.body), s.test)
        if s.orelse:
            self.bad.append("while-else")

    def loop(self, s, dom, bind, body, test):
        self.level += 1
        lv = self.level
        if dom is not None:
            count, elem = dom()
        else:
            count, elem = TRUE, None
        names = self.assigned(body + ([s.target] if dom is not None else []))
        tgt = set()
        if dom is not None:
            for n in ast.walk(s.target):
                if isinstance(n, ast.Name):
                    tgt.add(n.id)
        pre = self.st
        # which objects does the body change?
        save = (list(self.guards), len(self.fr.rets), len(self.fr.raises), list(self.raises), list(self.bad), self.nobj, self.dead)
        self.st = pre.copy()
        changed = self.one_pass(s, lv, count, elem, bind, body, test, names - tgt, pre, ())[0]
        self.guards, self.raises, self.bad, self.dead = list(save[0]), save[3], save[4], False
        del self.fr.rets[save[1]:]
        del self.fr.raises[save[2]:]
        self.nobj = save[5]
        self.st = pre.copy()
        _, end, l, marks, cond = self.one_pass(s, lv, count, elem, bind, body, test, names - tgt, pre, changed)
        self.guards = list(save[0])
        self.dead = False
        # break / return conditions end the iteration
        brk = or_([g for g, _ in l["brk"]]) if l["brk"] else FALSE
        rets = [(g, v) for g, k, v in l["exit"] if k == "ret"]
        stop = or_([brk] + [g for g, _ in rets])
        if test is not None:
            count = T("while", cond)
        # states that reach the end of an iteration, and those that leave by break
        ends = [st for _, st in l["brk"]]
        carried = []
        for n in sorted(names - tgt):
            init = pre.env.get(n)
            fv = end.env.get(n) if end is not None else None
            outs = [(g, st.env.get(n)) for g, st in l["brk"]]
            if init is None:
                # only meaningful after the loop
                init_t = T("undef")
            elif isinstance(init, FnVal):
                continue
            else:
                init_t = pre.heap[init.n] if isinstance(init, Obj) else init
            acc = T("acc", lv, n)

            def val(x, st):
                if x is None:
                    return acc
                if isinstance(x, Obj):
                    return st.heap[x.n]
                if isinstance(x, FnVal):
                    return T("fnval")
                return x
            f = val(fv, end) if end is not None else acc
            for (g, x), st in zip(reversed(outs), reversed(ends)):
                f = ite(g, val(x, st), f)
            for g, _ in rets if not outs else ():
                # left unless the value is V: whoever continues has V
                c = g.args[0] if g.op == "not" else None
                if c is not None and c.op == "cmp" and c.args[0] == "is" and f in c.args[1:]:
                    v = c.args[2] if c.args[1] is f else c.args[1]
                    if v is init_t and not has(v, lambda t: t.op in ("acc", "bv") and t.args[0] == lv):
                        f = acc
                        if end is not None:
                            end.env[n] = pre.env[n]
            carried.append((n, init, init_t, f))
        sums, sysv, last = {}, [], {}
        for n, init, it_, f in carried:
            acc = T("acc", lv, n)
            if f is acc:
                continue
            isacc = lambda t: t.op == "acc" and t.args[0] == lv
            if not has(f, isacc) and stop is FALSE and test is None:
                last[n] = f
                continue
            g = None
            if f.op == "op" and len(f.args) == 3 and f.args[0] == "+" and f.args[1] is acc and not has(f.args[2], isacc):
                g = (TRUE, f.args[2])
            elif f.op == "ite" and not has(f.args[0], isacc):
                for c, a, b in ((f.args[0], f.args[1], f.args[2]), (not_(f.args[0]), f.args[2], f.args[1])):
                    if b is acc and a.op == "op" and len(a.args) == 3 and a.args[0] == "+" and a.args[1] is acc and not has(a.args[2], isacc):
                        g = (c, a.args[2])
            elif f.op in ("cat",) and f.args[0] is acc and not any(has(x, isacc) for x in f.args[1:]):
                g = (TRUE, T("cat", *f.args[1:]))
            if g is not None and stop is FALSE and test is None:
                sums[n] = g
                continue
            sysv.append((n, it_, f))
        cnt = T("until", count, stop) if stop is not FALSE else count
        # replace simple carried values where they are used
        rep = {}
        for n, init, it_, f in carried:
            if f is T("acc", lv, n):
                rep[f.id] = it_
            elif n in sums:
                rep[T("acc", lv, n).id] = T("psum", it_, sums[n][0], sums[n][1])
            elif n in last:
                rep[T("acc", lv, n).id] = T("prev", it_, last[n])
        if rep:
            rf = lambda t: rep.get(t.id)
            memo = {}
            fx = lambda t: subst(t, rf, memo)
        else:
            fx = lambda t: t
        if sysv or test is not None:
            args = []
            for n, it_, f in sysv:
                args += [n, it_, fx(f)]
            system = T("sys", fx(cnt), lv, *args)
        else:
            system = NONE
        # results
        self.st = State(dict(pre.env), dict(pre.heap), dict(pre.chan))
        whole = end if end is not None else None
        states = ([whole] if whole is not None else []) + ends
        if not states:
            states = l["deadst"]
        for n in set().union(*[set(st.heap) for st in states]) if states else ():
            if n not in pre.heap:
                continue
            us = []
            mk = marks.get(n)
            for st in states:
                t = st.heap.get(n)
                if t is None:
                    continue
                ch = []
                stopid = mk.id if mk is not None else pre.heap[n].id
                ok = True
                while t.id != stopid:
                    if t.op != "upd":
                        ok = False
                        break
                    ch.append(t.args[1])
                    t = t.args[0]
                if ok:
                    for u in reversed(ch):
                        if u not in us:
                            us.append(u)
                elif st is whole:
                    us.append(T("mcall", TRUE, "rebuilt", fx(st.heap[n])))
            r = pre.heap[n]
            for u in us:
                r = T("upd", r, T("each", fx(cnt), lv, system, fx(u)))
            self.st.heap[n] = self.norm(r)
        seenst = states + [x for x in l["deadst"] if x not in states]
        for k in set().union(*[set(st.chan) for st in seenst]) if seenst else ():
            z = pre.chan.get(k, ())
            us = []
            for st in seenst:
                for u in st.chan.get(k, ())[len(z):]:
                    if u not in us:
                        us.append(u)
            self.st.chan[k] = z + tuple(T("each", fx(cnt), lv, system, fx(u)) for u in us)
        for n, init, it_, f in carried:
            if f is T("acc", lv, n):
                continue
            if n in sums:
                v = self.arith("+", it_, T("sum", fx(cnt), lv, fx(sums[n][0]), fx(sums[n][1]), system))
            elif n in last:
                v = T("last", fx(cnt), lv, TRUE, fx(last[n]), system, it_)
            else:
                v = T("post", system, n)
            self.st.env[n] = self.own(v) if v.op in ("op", "call") else self.new(v)
        for n in tgt:
            if elem is not None:
                self.st.env[n] = T("lastelem", fx(cnt), n)
        # raises inside the loop
        new = self.raises[len(save[3]):]
        self.raises = save[3] + [T("eachraise", fx(cnt), lv, system, fx(r)) for r in new]
        for i in range(save[2], len(self.fr.raises)):
            self.fr.raises[i] = T("any", fx(cnt), lv, fx(self.fr.raises[i]), TRUE, system)
        if new:
            rg = [T("any", fx(cnt), lv, fx(and_(r.args[0].args if False else [r.args[0]])), TRUE, system) if r.op == "raise" else T("anyr", fx(r)) for r in new]
            for g in rg:
                self.guards.append(not_(g))
        if rets:
            g = T("any", fx(cnt), lv, fx(or_([g for g, _ in rets])), TRUE, system)
            v = rets[-1][1]
            for gg, vv in reversed(rets[:-1]):
                v = ite(gg, vv, v)
            fv = T("first", fx(cnt), lv, fx(or_([x for x, _ in rets])), fx(v), system)
            del self.fr.rets[save[1]:]
            self.fr.rets.append((tuple(self.guards[self.fr.g0:]) + (g,), fv))
            for l2 in self.loops[self.fr_l0():]:
                l2["exit"].append((and_(self.guards[l2["g0"]:] + [g]), "ret", fv))
            self.guards.append(not_(g))
        self.level -= 1

    def norm(self, t):
        """Lists built by appending in a loop are comprehensions."""
        if t.op != "upd":
            return t
        b = self.norm(t.args[0])
        u = t.args[1]
        if b.op == "list" and u.op == "each" and u.args[3].op == "mcall" and u.args[3].args[1] == "append" and len(u.args[3].args) == 3:
            m = u.args[3]
            return T("list", *(b.args + (T("seg", u.args[0], u.args[1], m.args[0], m.args[2], u.args[2]),)))
        return t if b is t.args[0] else T("upd", b, u)

    def one_pass(self, s, lv, count, elem, bind, body, test, names, pre, changed):
        marks = {}
        for n in changed:
            if n in self.st.heap:
                m = T("upd", self.st.heap[n], T("carried", lv))
                self.st.heap[n] = m
                marks[n] = m
        for n in names:
            v = pre.env.get(n)
            if isinstance(v, FnVal):
                continue
            a = T("acc", lv, n)
            if v is not None:
                t = pre.heap[v.n] if isinstance(v, Obj) else v
                if t.id in self.types:
                    self.types[a.id] = self.types[t.id]
                if isinstance(v, Obj) and v.n in marks and not self.rebinds(n, body):
                    continue
            else:
                continue
            self.st.env[n] = a
        l = {"g0": len(self.guards), "exit": [], "count": count, "level": lv, "brk": [], "cont": [], "deadst": []}
        self.loops.append(l)
        cond = TRUE
        if test is not None:
            cond = self.cond(test)
            l["count"] = T("while", cond)
            self.guards.append(cond)
        if bind is not None:
            bind(elem)
        self.block(body)
        self.loops.pop()
        end = None if self.dead else self.st
        if l["cont"]:
            sts = list(l["cont"])
            if end is None:
                end = sts[-1][1]
                sts = sts[:-1]
            for c, x in reversed(sts):
                end = self.merge2(c, x, end)
        ch = set()
        for st in ([end] if end is not None else []) + [x for _, x in l["brk"]] + l["deadst"]:
            for n, t in st.heap.items():
                if n in pre.heap:
                    b = marks.get(n, pre.heap[n])
                    if t is not b:
                        ch.add(n)
        return ch, end, l, marks, cond

    def rebinds(self, n, body):
        return n in self.assigned_only(body)

    def assigned_only(self, nodes):
        out = set()
        for b in nodes:
            for n in ast.walk(b):
                if isinstance(n, ast.Assign):
                    for t in n.targets:
                        for x in ast.walk(t):
                            if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Store):
                                out.add(x.id)
                elif isinstance(n, ast.AnnAssign) and isinstance(n.target, ast.Name) and n.value is not None:
                    out.add(n.target.id)
        return out

    def s_Break(self, s):
        l = self.loops[-1]
        l["brk"].append((and_(self.guards[l["g0"]:]), self.st))
        self.dead = True

    def s_Continue(self, s):
        l = self.loops[-1]
        l["cont"].append((and_(self.guards[l["g0"]:]), self.st))
        self.dead = True

    # exceptions and contexts
    def s_Try(self, s):
        types = []
        for h in s.handlers:
            types.append(ast.unparse(h.type) if h.type is not None else "")
        fin = bool(s.finalbody)
        kinds = "|".join(types)
        nth = self.tries.get(kinds, 0)
        self.tries[kinds] = nth + 1
        base = self.st
        n = len(self.guards)
        old = self.ctx
        # what protects the body: the effects of its handlers and of finally
        prot = T("protected", kinds, fin)
        self.ctx = self.ctx + (prot,)
        self.st = base.copy()
        g0 = len(self.raises)
        self.block(s.body)
        body_raises = self.raises[g0:]
        if not self.dead and s.orelse:
            self.ctx = old
            self.block(s.orelse)
        self.ctx = old
        d1, s1 = self.dead, self.st
        extra = self.guards[n:]
        outs = [(None, d1, s1, extra)]
        for i, h in enumerate(s.handlers):
            c = T("raised", types[i], nth)
            del self.guards[n:]
            self.dead = False
            self.st = base.copy()
            self.guards.append(c)
            if h.name:
                self.st.env[h.name] = T("v", "exc")
            self.ctx = old + (T("handler", types[i]),)
            self.block(h.body)
            self.ctx = old
            outs.append((c, self.dead, self.st, self.guards[n + 1:]))
        del self.guards[n:]
        self.dead = False
        alive = [o for o in outs if not o[1]]
        st = s1
        # fold handlers into the normal outcome
        cur_dead, cur, cur_extra = d1, s1, extra
        for c, d, x, ex in outs[1:]:
            if d:
                if not cur_dead:
                    cur = self.graft(cur, x, base)
                    cur_extra = [not_(c)] + list(cur_extra)
                else:
                    cur = self.graft(cur, x, base)
            elif cur_dead:
                cur = self.graft(x, cur, base)
                cur_dead = False
                cur_extra = [c] + list(ex)
            else:
                cur = self.merge(c, x, cur, base)
        self.st = cur
        self.guards += list(cur_extra)
        self.dead = cur_dead
        if fin:
            d = self.dead
            self.dead = False
            m = len(self.guards)
            if d:
                # runs on the way out of every path
                self.guards = self.guards[:n]
            self.ctx = old + (T("finally"),)
            self.block(s.finalbody)
            self.ctx = old
            self.dead = self.dead or d

    s_TryStar = s_Try

    def s_With(self, s):
        old = self.ctx
        n = 0
        for item in s.items:
            c = self.snap(self.ex(item.context_expr))
            v = self.enter(c)
            if item.optional_vars is not None:
                self.assign(item.optional_vars, v)
            if not (c.op == "call" and c.args[0].op == "g" and c.args[0].args[0] in ("numpy.errstate", "numpy.printoptions", "warnings.catch_warnings")):
                self.ctx = self.ctx + (T("within", c),)
                n += 1
        self.block(s.body)
        self.ctx = old

    def enter(self, c):
        if c.op == "call" and c.args[0].op == "g":
            q = c.args[0].args[0]
            if q in ("builtins.open", "netCDF4.Dataset", "pathlib.Path.open"):
                return self.new(c)
            if q in ("contextlib.nullcontext",) and len(c.args) == 2:
                return c.args[1]
        return self.new(T("call", T("g", "with-enter"), c))

    # ------------------------------------------------------------ expressions
    def cond(self, e):
        """Truth of an expression as a condition term."""
        if isinstance(e, ast.BoolOp):
            n = len(self.guards)
            cs = []
            for x in e.values:
                c = self.cond(x)
                cs.append(c)
                self.guards.append(c if isinstance(e.op, ast.And) else not_(c))
            del self.guards[n:]
            return and_(cs) if isinstance(e.op, ast.And) else or_(cs)
        if isinstance(e, ast.UnaryOp) and isinstance(e.op, ast.Not):
            return not_(self.cond(e.operand))
        return self.truth(self.snap(self.ex(e)))

    def truth(self, t):
        if is_k(t):
            return TRUE if kval(t) else FALSE
        if t.op in ("cmp", "and", "or", "not", "any", "truth"):
            return t
        if t.op == "ite":
            return or_([and_([t.args[0], self.truth(t.args[1])]), and_([not_(t.args[0]), self.truth(t.args[2])])])
        if t.op in ("tuple", "list", "set", "dict") and all(x.op not in ("seg", "dseg", "opt", "splice", "dsplat") for x in t.args):
            return TRUE if t.args else FALSE
        if t.op == "call" and t.args[0].op == "g" and t.args[0].args[0] == "builtins.bool" and len(t.args) == 2:
            return self.truth(t.args[1])
        if t.op == "call" and t.args[0].op == "g" and t.args[0].args[0] == "builtins.len" and len(t.args) == 2:
            return T("cmp", "lt", K(0), t)
        return T("truth", t)

    def ex(self, e):
        m = getattr(self, "e_" + type(e).__name__, None)
        if m is None:
            self.bad.append("expression " + type(e).__name__)
            return T("unknown", type(e).__name__)
        return m(e)

    def e_Constant(self, e):
        return K(e.value)

    def e_Name(self, e):
        n = e.id
        if n in self.fr.globals and "global " + n in self.st.env:
            return self.st.env["global " + n]
        if n in self.st.env and n not in self.fr.globals:
            return self.st.env[n]
        return self.global_name(n)

    def global_name(self, n):
        mod = self.fr.mod
        if n in mod.consts:
            v = self.const(mod, n)
            if v is not None:
                return v
        if n in mod.names:
            q = self.pkg.resolve(mod.names[n])
            return self.global_const(q)
        if n in BUILTINS:
            return T("g", "builtins." + n)
        return T("g", "?" + n)

    def global_const(self, q):
        i = q.rfind(".")
        m = self.pkg.mods.get(q[:i]) if i > 0 else None
        if m is not None and q[i + 1:] in m.consts and q not in self.pkg.fns and q not in self.pkg.classes:
            v = self.const(m, q[i + 1:])
            if v is not None:
                return v
        return T("g", ALIAS.get(q, q))

    def const(self, mod, n, depth=0):
        """Module constants that are never rebound and are immutable literals."""
        e = mod.consts[n]
        key = (mod.name, n)
        cache = self.__dict__.setdefault("_consts", {})
        if key in cache:
            return cache[key]
        cache[key] = None
        rebound = any(isinstance(x, ast.Global) and n in x.names for x in ast.walk(mod.tree))
        if not rebound and not self.constexpr(e):
            rebound = True
        if not rebound:
            old = (self.st, self.fr)
            self.st, self.fr = State({}, {}, {}), Frame(None, mod)
            try:
                cache[key] = self.snap(self.ex(e))
            finally:
                self.st, self.fr = old
        return cache[key]

    def constexpr(self, e):
        for n in ast.walk(e):
            if isinstance(n, (ast.Call, ast.Lambda, ast.ListComp, ast.DictComp, ast.Await)):
                if isinstance(n, ast.Call) and isinstance(n.func, ast.Name) and n.func.id in ("frozenset", "set", "tuple", "float", "int"):
                    continue
                return False
            if isinstance(n, ast.Name) and n.id not in ("True", "False", "None") and not isinstance(n.ctx, ast.Load):
                return False
            if isinstance(n, ast.Subscript):
                return False
        return True

    def e_Attribute(self, e):
        b = self.ex(e.value)
        return self.attr(b, e.attr)

    def attr(self, b, name):
        if isinstance(b, FnVal):
            return T("at", self.snap(b), name)
        if isinstance(b, Obj):
            t = self.st.heap[b.n]
            return self.read_obj(t, "at", name)
        if b.op == "g":
            q = self.pkg.resolve(b.args[0] + "." + name)
            if q.rsplit(".", 1)[0] in self.pkg.classes:
                v = self.class_const(q)
                if v is not None:
                    return v
            return self.global_const(q)
        # property of a known class
        c = self.types.get(b.id)
        if c is not None:
            p = self.pkg.props.get(c + "." + name)
            if p is not None and self.may_inline(p):
                return self.inline(p, [b], {}, None)
        r = self.read_ext(b, "at", name)
        if c is not None and isinstance(r, Term) and r.op == "at":
            ft = self.field_class(c, name)
            if ft:
                self.types[r.id] = ft
        return r

    def field_class(self, c, name):
        for n in [c]:
            node, m = self.pkg.classes[n]
            for s in node.body:
                if isinstance(s, ast.AnnAssign) and isinstance(s.target, ast.Name) and s.target.id == name:
                    return self.ann_class(s.annotation, m)
        return None

    def class_const(self, q):
        c, n = q.rsplit(".", 1)
        node, m = self.pkg.classes[c]
        for s in node.body:
            t = s.targets[0] if isinstance(s, ast.Assign) else s.target if isinstance(s, ast.AnnAssign) else None
            if isinstance(t, ast.Name) and t.id == n and s.value is not None and self.constexpr(s.value):
                if any("Enum" in ast.unparse(b) for b in node.bases):
                    return None
                return self.modexpr(s.value, m)
        return None

    def read_obj(self, t, kind, key):
        """Read from a local object's current state."""
        u = t
        while u.op == "upd":
            x = u.args[1]
            if kind == "at" and x.op == "sattr" and isinstance(key, str) and isinstance(x.args[1], str):
                if x.args[1] == key:
                    if x.args[0] is TRUE or x.args[0] in self.guards or (x.args[0].op == "and" and all(y in self.guards for y in x.args[0].args)):
                        return x.args[2]
                    break
                u = u.args[0]
                continue
            if kind == "it" and x.op == "sitem" and is_k(x.args[1]) and isinstance(key, Term) and is_k(key):
                if x.args[1] is key:
                    if x.args[0] is TRUE or x.args[0] in self.guards or (x.args[0].op == "and" and all(y in self.guards for y in x.args[0].args)):
                        return x.args[2]
                    break
                u = u.args[0]
                continue
            break
        if kind == "it":
            r = self.known_item(u, key)
            if r is not None:
                return r
            r = T("it", u, key)
        else:
            r = T("at", u, key)
        self.__dict__.setdefault("owners", {})
        return r

    def known_item(self, u, key):
        u = self.flat(u)
        if is_k(key):
            k = kval(key)
            if u.op == "dict" and all(p.op == "pair" and is_k(p.args[0]) for p in u.args):
                for p in reversed(u.args):
                    if p.args[0] is key:
                        return p.args[1]
            if u.op in ("list", "tuple") and isinstance(k, int) and not isinstance(k, bool) and all(x.op not in ("seg", "splice", "opt") for x in u.args):
                if -len(u.args) <= k < len(u.args):
                    return u.args[k]
        return None

    def strip(self, b):
        """The object a path leads to: stores inside that object do not change which object it is."""
        if not isinstance(b, Term) or b.op not in ("at", "it"):
            return b
        c = self.strip(b.args[0])
        rel = []
        for u in b.args[2].args if len(b.args) > 2 and b.args[2].op == "hist" else ():
            x = u.args[0] if u.op == "ctx" else u
            if x.op == "each":
                x = x.args[3]
            if x.op == "spath" and x.args[2].op == "key":
                k = x.args[2]
                if k.args[0] != b.op:
                    continue
                n = k.args[1].args[0] if k.args[1].op == "name" else k.args[1]
                if b.op == "at" and isinstance(n, str) and isinstance(b.args[1], str) and n != b.args[1]:
                    continue
            rel.append(u)
        r = T(b.op, c, b.args[1], T("hist", *rel)) if rel else T(b.op, c, b.args[1])
        if r is not b and b.id in self.types:
            self.types[r.id] = self.types[b.id]
        return r

    def read_ext(self, b, kind, key):
        """Read through a path that starts outside the function."""
        b = self.strip(b)
        root = self.root(b)
        path = T("at", b, key) if kind == "at" else T("it", b, key)
        us = self.st.chan.get(self.chan_name(root), ()) if root.op in ("v", "g") else ()
        rel = []
        for u in reversed(us):
            x = u.args[0] if u.op == "ctx" else u
            if x.op == "spath":
                p, k = x.args[1], x.args[2]
                same = p is b and k.op == "key" and k.args[0] == kind and k.args[1] is (key if isinstance(key, Term) else T("name", key))
                if same and not rel and (x.args[0] is TRUE or x.args[0] in self.guards or (x.args[0].op == "and" and all(y in self.guards for y in x.args[0].args))):
                    return x.args[3]
                if not same and self.apart(p, k, b, kind, key):
                    continue
            elif x.op == "each" and x.args[3].op == "spath":
                y = x.args[3]
                if self.apart(y.args[1], y.args[2], b, kind, key):
                    continue
            rel.append(x)
        if rel:
            return T(kind, b, key, T("hist", *reversed(rel)))
        return path

    def apart(self, p, k, b, kind, key):
        """Store to (p, k) cannot change a read of (b, key)."""
        def names(t):
            out = []
            while t.op in ("at", "it"):
                out.append((t.op, t.args[1]))
                t = t.args[0]
            return out[::-1]
        if k.op != "key":
            return False
        a = names(p) + [(k.args[0], k.args[1].args[0] if k.args[1].op == "name" else k.args[1])]
        c = names(b) + [(kind, key)]
        for x, y in zip(a, c):
            if x[0] != y[0]:
                return x[0] == "at" or y[0] == "at"
            if x[0] == "at":
                if isinstance(x[1], str) and isinstance(y[1], str) and x[1] != y[1]:
                    return True
                if not isinstance(x[1], str) or not isinstance(y[1], str):
                    if x[1] is not y[1]:
                        return False
            else:
                if isinstance(x[1], Term) and isinstance(y[1], Term) and is_k(x[1]) and is_k(y[1]) and x[1] is not y[1]:
                    return True
                if x[1] is not y[1]:
                    return False
        return False

    def index(self, s):
        if isinstance(s, ast.Slice):
            return T("slice", *[self.snap(self.ex(x)) if x is not None else NONE for x in (s.lower, s.upper, s.step)])
        if isinstance(s, ast.Tuple):
            return T("tuple", *[self.index(x) for x in s.elts])
        return self.snap(self.ex(s))

    def e_Subscript(self, e):
        return self.item(self.ex(e.value), self.index(e.slice))

    def item(self, b, i):
        if isinstance(b, Obj):
            return self.read_obj(self.st.heap[b.n], "it", i)
        if isinstance(b, FnVal):
            return T("it", self.snap(b), i)
        if is_k(i):
            r = self.known_item(b, i)
            if r is not None:
                return r
            if b.op == "ite":
                x, y = self.item(b.args[1], i), self.item(b.args[2], i)
                return ite(b.args[0], x, y)
        if b.op in ("v", "g", "at", "it"):
            return self.read_ext(b, "it", i)
        return T("it", b, i)

    def e_Tuple(self, e):
        return self.seq("tuple", e.elts)

    def e_List(self, e):
        return self.seq("list", e.elts)

    def e_Set(self, e):
        return self.seq("set", e.elts)

    def seq(self, op, elts):
        out = []
        for x in elts:
            if isinstance(x, ast.Starred):
                v = self.snap(self.ex(x.value))
                items = self.constant_items(v)
                if items is not None:
                    out += items
                else:
                    v = self.flat(v)
                    out += list(v.args) if v.op in ("list", "tuple") else [T("splice", v)]
            else:
                out.append(self.snap(self.ex(x)))
        return T(op, *out)

    def e_Dict(self, e):
        out = []
        for k, v in zip(e.keys, e.values):
            if k is None:
                x = self.snap(self.ex(v))
                out += list(x.args) if x.op == "dict" else [T("dsplat", x)]
            else:
                kk = self.snap(self.ex(k))
                out.append(T("pair", kk, self.snap(self.ex(v))))
        return T("dict", *out)

    def arith(self, o, a, b):
        if is_k(a) and is_k(b):
            x, y = kval(a), kval(b)
            if isinstance(x, (int, float)) and isinstance(y, (int, float)) and not isinstance(x, bool) and not isinstance(y, bool):
                try:
                    r = {"+": lambda: x + y, "-": lambda: x - y, "*": lambda: x * y, "/": lambda: x / y, "//": lambda: x // y, "%": lambda: x % y, "**": lambda: x ** y}[o]()
                    return K(r)
                except (KeyError, ZeroDivisionError, OverflowError):
                    pass
            if isinstance(x, str) and isinstance(y, str) and o == "+":
                return K(x + y)
        if o == "+" and (self.stringy(a) or self.stringy(b)):
            return self.cat([a, b])
        if o == "+" and a.op == "list" and b.op == "list":
            return T("list", *(a.args + b.args))
        if o == "-" and b is K(0):
            return a
        if o == "+" and (b is K(0) or a is K(0)):
            return a if b is K(0) else b
        return T("op", o, a, b)

    def stringy(self, t):
        return t.op in ("cat", "fmt") or (is_k(t) and t.args[0] == "str")

    def cat(self, parts):
        out = []
        for p in parts:
            for x in (p.args if p.op == "cat" else (p,)):
                if out and is_k(x) and is_k(out[-1]) and x.args[0] == out[-1].args[0] == "str":
                    out[-1] = K(kval(out[-1]) + kval(x))
                elif not (is_k(x) and kval(x) == ""):
                    out.append(x)
        if not out:
            return K("")
        if len(out) == 1 and self.stringy(out[0]):
            return out[0]
        return T("cat", *out)

    def e_BinOp(self, e):
        a, b = self.snap(self.ex(e.left)), self.snap(self.ex(e.right))
        return self.arith(OPS[type(e.op)], a, b)

    def e_UnaryOp(self, e):
        if isinstance(e.op, ast.Not):
            return not_(self.cond(e.operand))
        v = self.snap(self.ex(e.operand))
        if isinstance(e.op, ast.USub):
            if is_k(v) and isinstance(kval(v), (int, float)):
                return K(-kval(v))
            return T("op", "-", v)
        if isinstance(e.op, ast.UAdd):
            return v
        return T("op", "~", v)

    def e_BoolOp(self, e):
        vs = []
        n = len(self.guards)
        for x in e.values:
            v = self.snap(self.ex(x))
            vs.append(v)
            c = self.truth(v)
            self.guards.append(c if isinstance(e.op, ast.And) else not_(c))
        del self.guards[n:]
        r = vs[-1]
        for v in reversed(vs[:-1]):
            c = self.truth(v)
            r = ite(c, r, v) if isinstance(e.op, ast.And) else ite(c, v, r)
        if all(v.op in ("cmp", "not", "and", "or", "truth", "any") for v in vs):
            return and_(vs) if isinstance(e.op, ast.And) else or_(vs)
        return r

    def e_IfExp(self, e):
        c = self.cond(e.test)
        if c is TRUE:
            return self.ex(e.body)
        if c is FALSE:
            return self.ex(e.orelse)
        self.guards.append(c)
        a = self.snap(self.ex(e.body))
        self.guards[-1] = not_(c)
        b = self.snap(self.ex(e.orelse))
        self.guards.pop()
        return ite(c, a, b)

    def e_Compare(self, e):
        left = self.snap(self.ex(e.left))
        cs = []
        for o, r in zip(e.ops, e.comparators):
            right = self.snap(self.ex(r))
            cs.append(self.compare(type(o).__name__, left, right))
            left = right
        return and_(cs)

    def compare(self, o, a, b):
        if o in ("NotEq", "IsNot", "NotIn"):
            return not_(self.compare({"NotEq": "Eq", "IsNot": "Is", "NotIn": "In"}[o], a, b))
        if is_k(a) and is_k(b) and o in ("Eq", "Is", "Lt", "LtE", "Gt", "GtE"):
            x, y = kval(a), kval(b)
            try:
                return K({"Eq": x == y, "Is": x == y and type(x) is type(y), "Lt": None, "LtE": None, "Gt": None, "GtE": None}[o]) if o in ("Eq", "Is") else K({"Lt": x < y, "LtE": x <= y, "Gt": x > y, "GtE": x >= y}[o])
            except TypeError:
                pass
        if o in ("Eq", "Is"):
            for x, y in ((a, b), (b, a)):
                if x.op == "ite" and is_k(y):
                    return or_([and_([x.args[0], self.compare(o, x.args[1], y)]), and_([not_(x.args[0]), self.compare(o, x.args[2], y)])])
            if a is b:
                return TRUE
            if b is NONE and a.op in ("list", "dict", "tuple", "set", "cat", "fmt", "op"):
                return FALSE
            if o == "Is" and b is TRUE or b is FALSE and o == "Is":
                return T("cmp", "is", a, b)
            x, y = (a, b) if is_k(b) or (not is_k(a) and order(a) <= order(b)) else (b, a)
            return T("cmp", "eq" if o == "Eq" else "is", x, y)
        if o == "In":
            f = self.flat(b) if b.op == "upd" else b
            if f.op in ("tuple", "list", "set") and all(x.op not in ("seg", "splice", "opt") for x in f.args):
                return or_([self.compare("Eq", a, x) for x in f.args])
            if f.op == "dict" and all(x.op == "pair" for x in f.args):
                return or_([self.compare("Eq", a, x.args[0]) for x in f.args])
            if b.op == "call" and b.args[0].op == "g" and b.args[0].args[0] in ("builtins.frozenset", "builtins.set") and len(b.args) == 2:
                return self.compare("In", a, b.args[1])
            if b.op == "meth" and b.args[1] == "keys":
                b = b.args[0]
            if b.op == "op" and b.args[0] == "|":
                return or_([self.compare("In", a, x) for x in b.args[1:]])
            return T("cmp", "in", a, b)
        if o in ("Gt", "GtE"):
            a, b = b, a
        if o in ("LtE", "GtE"):
            # whole numbers: x <= n is x < n + 1
            if is_k(b) and self.isint(a) and self.isint(b):
                return T("cmp", "lt", a, K(kval(b) + 1))
            if is_k(a) and self.isint(a) and self.isint(b):
                return T("cmp", "lt", K(kval(a) - 1), b)
        return T("cmp", "lt" if o in ("Lt", "Gt") else "le", a, b)

    def isint(self, t, d=0):
        """Is this certainly a whole number (or, for annotated parameters, declared as one)?"""
        if t.id in self.ints:
            return True
        if is_k(t):
            return isinstance(kval(t), int) and not isinstance(kval(t), bool)
        if t.op == "bv":
            return True
        if t.op == "call" and t.args[0].op == "g":
            return t.args[0].args[0] in ("builtins.len", "builtins.int", "numpy.ndim", "numpy.size")
        if t.op == "at":
            if t.args[1] in ("ndim", "size"):
                return True
            c = self.types.get(t.args[0].id)
            return c in self.pkg.classes and isinstance(t.args[1], str) and self.intann(self.field_ann(c, t.args[1]))
        if t.op == "it":
            return t.args[0].op == "at" and t.args[0].args[1] == "shape"
        if t.op == "op" and t.args[0] in ("+", "-", "*", "//", "%") and d < 6:
            return all(self.isint(x, d + 1) for x in t.args[1:])
        if t.op == "ite" and d < 6:
            return all(self.isint(x, d + 1) for x in t.args[1:])
        return False

    def intann(self, ann):
        return ann is not None and ast.unparse(ann).replace(" ", "").replace('"', "").replace("'", "") in ("int", "int|None", "None|int", "Optional[int]", "typing.Optional[int]")

    def field_ann(self, c, name):
        for s in self.pkg.classes[c][0].body:
            if isinstance(s, ast.AnnAssign) and isinstance(s.target, ast.Name) and s.target.id == name:
                return s.annotation
        return None

    def e_JoinedStr(self, e):
        parts = []
        for v in e.values:
            if isinstance(v, ast.Constant):
                parts.append(K(v.value))
            else:
                parts.append(self.e_FormattedValue(v))
        return self.cat(parts)

    def e_FormattedValue(self, v):
        x = self.snap(self.ex(v.value))
        spec = self.snap(self.ex(v.format_spec)) if v.format_spec is not None else K("")
        conv = chr(v.conversion) if v.conversion and v.conversion > 0 else ""
        if conv in ("", "s") and spec is K(""):
            if self.stringy(x):
                return x
            if is_k(x) and isinstance(kval(x), int) and not isinstance(kval(x), bool):
                return K(str(kval(x)))
            if x.op == "ite" and self.stringy(x.args[1]) and self.stringy(x.args[2]):
                return x
        return T("fmt", x, conv, spec)

    def e_Lambda(self, e):
        return FnVal(e, self.st.env, self.fr, "<lambda>")

    def e_NamedExpr(self, e):
        v = self.own(self.ex(e.value))
        self.assign(e.target, v)
        return v

    def e_Starred(self, e):
        return T("splice", self.snap(self.ex(e.value)))

    def e_Await(self, e):
        return self.ex(e.value)

    def e_Yield(self, e):
        v = self.snap(self.ex(e.value)) if e.value is not None else NONE
        self.event("fs", T("mcall", self.guard(), "yield", v))
        return T("sent")

    def e_YieldFrom(self, e):
        v = self.snap(self.ex(e.value))
        self.event("fs", T("mcall", self.guard(), "yieldfrom", v))
        return T("sent")

    # comprehensions
    def comp(self, gens, leaf):
        """Run leaf under the generators; returns a list of (loops, guard, leaf value)."""
        saved_env = dict(self.st.env)
        n = len(self.guards)

        def go(i, loops, gs):
            if i == len(gens):
                return [(tuple(loops), and_(gs), leaf())]
            g = gens[i]
            it = self.ex(g.iter)
            items = self.constant_items(it)
            out = []
            if items is not None and len(items) <= 400:
                for x in items:
                    self.assign(g.target, x)
                    cs = [self.cond(c) for c in g.ifs]
                    c = and_(cs)
                    if c is FALSE:
                        continue
                    self.guards.append(c)
                    out += go(i + 1, loops, gs + [c])
                    self.guards.pop()
                return out
            self.level += 1
            count, elem = self.domain(it)
            lv = self.level
            self.assign(g.target, elem)
            cs = and_([self.cond(c) for c in g.ifs])
            self.guards.append(cs)
            out = go(i + 1, loops + [(count, lv)], gs + [cs])
            self.guards.pop()
            self.level -= 1
            return out
        r = go(0, [], [])
        del self.guards[n:]
        self.st.env = saved_env
        return r

    def comp_items(self, e):
        out = []
        for loops, g, v in self.comp(e.generators, lambda: self.snap(self.ex(e.elt))):
            if not loops:
                out.append(v if g is TRUE else T("opt", g, v))
                continue
            x = None
            for count, lv in reversed(loops):
                x = T("seg", count, lv, g, v, NONE) if x is None else T("seg", count, lv, TRUE, x, NONE)
            out.append(x)
        return out

    def e_ListComp(self, e):
        return T("list", *self.comp_items(e))

    def e_SetComp(self, e):
        return T("set", *self.comp_items(e))

    def e_GeneratorExp(self, e):
        return T("list", *self.comp_items(e))

    def e_DictComp(self, e):
        out = []
        for loops, g, (k, v) in self.comp(e.generators, lambda: (self.snap(self.ex(e.key)), self.snap(self.ex(e.value)))):
            if not loops:
                out.append(T("pair", k, v) if g is TRUE else T("dseg", K(1), self.level + 1, g, k, v, NONE))
            elif len(loops) == 1:
                out.append(T("dseg", loops[0][0], loops[0][1], g, k, v, NONE))
            else:
                self.bad.append("nested dict comprehension")
        return T("dict", *out)

    # ------------------------------------------------------------ calls
    def e_Call(self, e):
        # receiver first
        if isinstance(e.func, ast.Attribute):
            if isinstance(e.func.value, ast.Name) and e.func.value.id in LOGGERS and e.func.value.id not in self.st.env:
                return NONE
            if isinstance(e.func.value, ast.Call) and isinstance(e.func.value.func, ast.Name) and e.func.value.func.id == "super":
                args, kw = self.arguments(e)
                self.event("arg:self", T("mcall", self.guard(), "super." + e.func.attr, *self.argterms(args, kw)))
                return T("call", T("g", "super." + e.func.attr), *self.argterms(args, kw))
            b = self.ex(e.func.value)
            if isinstance(b, Term) and b.op == "g":
                q = self.pkg.resolve(b.args[0] + "." + e.func.attr)
                args, kw = self.arguments(e)
                return self.call_global(q, args, kw, e)
            args, kw = self.arguments(e)
            return self.call_method(b, e.func.attr, args, kw, e)
        f = self.ex(e.func)
        args, kw = self.arguments(e)
        if isinstance(f, FnVal):
            return self.call_closure(f, args, kw)
        f = self.snap(f)
        if f.op == "g":
            return self.call_global(f.args[0], args, kw, e)
        # callable held in a variable
        ts = self.argterms(args, kw)
        if f.op in ("v", "at", "it"):
            self.event(self.root(f), T("mcall", self.guard(), "call", f, *ts))
        return T("call", f, *ts)

    def arguments(self, e):
        args, kw = [], {}
        for a in e.args:
            if isinstance(a, ast.Starred):
                v = self.snap(self.ex(a.value))
                items = self.constant_items(v)
                if items is not None:
                    args += items
                else:
                    args.append(T("splice", v))
            else:
                args.append(self.ex(a))
        for k in e.keywords:
            v = self.ex(k.value)
            if k.arg is None:
                t = self.snap(v)
                if t.op == "dict" and all(p.op == "pair" and is_k(p.args[0]) for p in t.args):
                    for p in t.args:
                        kw[kval(p.args[0])] = p.args[1]
                else:
                    kw["**%d" % len(kw)] = v
            else:
                kw[k.arg] = v
        return args, kw

    def argterms(self, args, kw):
        return [self.snap(a) for a in args] + [T("kw", k, self.snap(v)) for k, v in sorted(kw.items())]

    def bind(self, fn, args, kw):
        """Arguments by parameter name, defaults filled in."""
        out = {}
        ps = list(fn.params)
        rest = []
        for i, a in enumerate(args):
            if isinstance(a, Term) and a.op == "splice":
                return None
            if i < len(ps):
                out[ps[i]] = a
            else:
                rest.append(a)
        extra = {}
        for k, v in kw.items():
            if k.startswith("**"):
                if fn.kwarg is None:
                    return None
                extra[k] = v
            elif k in ps or k in fn.kwonly:
                out[k] = v
            else:
                extra[k] = v
        if rest and not fn.vararg:
            return None
        if extra and not fn.kwarg:
            return None
        for p in ps + fn.kwonly:
            if p not in out:
                if p in fn.defaults:
                    out[p] = self.modexpr(fn.defaults[p], fn.mod)
                else:
                    return None
        if fn.vararg:
            out[fn.vararg] = T("tuple", *[self.snap(x) for x in rest])
        if fn.kwarg:
            out[fn.kwarg] = T("dict", *[T("pair", K(k), self.snap(v)) if not k.startswith("**") else T("dsplat", self.snap(v)) for k, v in sorted(extra.items())])
        return out

    def may_inline(self, fn):
        if fn.qual in self.stack or len(self.stack) > 14:
            return False
        if fn.ctx or any(isinstance(n, (ast.Yield, ast.YieldFrom)) for n in ast.walk(fn.node)):
            return False
        if fn.qual not in self.opaque:
            return True
        return self.deep and not fn.public

    def call_fn(self, fn, args, kw, e):
        b = self.bind(fn, args, kw)
        if b is None:
            return T("call", T("g", fn.qual), *self.argterms(args, kw))
        if self.may_inline(fn):
            return self.inline(fn, None, None, b)
        t = T("call", T("g", fn.qual), *[T("kw", k, self.snap(v)) for k, v in sorted(b.items())])
        for ch in self.effects(fn.qual):
            if ch.startswith("arg:"):
                p = ch[4:]
                if p == "self" and fn.cls and not fn.static:
                    p = fn.params[0]
                v = b.get(p)
                if isinstance(v, Obj):
                    self.update(v, T("mcall", self.guard(), "passed", t))
                elif isinstance(v, Term):
                    r = self.root(v)
                    if r.op in ("v", "g"):
                        self.event(r, T("mcall", self.guard(), "passed", t))
            else:
                self.event(ch, T("mcall", self.guard(), "do", t))
        return t

    def inline(self, fn, args, kw, b):
        if b is None:
            b = self.bind(fn, args, kw or {})
            if b is None:
                return T("call", T("g", fn.qual), *self.argterms(args, kw or {}))
        env = {}
        for p, v in b.items():
            env[p] = v
            t = self.snap(v)
            c = self.ann_class(fn.ann.get(p), fn.mod)
            if isinstance(t, Term) and self.intann(fn.ann.get(p)):
                self.ints.add(t.id)
            if c and isinstance(t, Term) and t.id not in self.types:
                self.types[t.id] = c
            if fn.cls and not fn.static and p == fn.params[0] and isinstance(t, Term) and t.op != "g":
                self.types.setdefault(t.id, fn.cls)
        return self.enter_fn(fn.node.body, env, Frame(fn, fn.mod), fn.qual)

    def enter_fn(self, body, env, fr, name, expr=None):
        old_env, old_fr, old_dead = self.st.env, self.fr, self.dead
        n = len(self.guards)
        fr.g0 = n
        fr.l0 = len(self.loops)
        fr.raises = []
        self.fr = fr
        self.st.env = env
        keep = T("saved")
        self.stack.append(name)
        self.dead = False
        # the caller's variables survive branch merges inside the callee
        self.st.env["#caller"] = None
        try:
            if expr is not None:
                v = self.ex(expr)
                fr.rets.append(((), v if not isinstance(v, FnVal) else v))
            else:
                self.block(body)
                if not self.dead:
                    fr.rets.append((tuple(self.guards[n:]), NONE))
        finally:
            self.stack.pop()
            self.fr = old_fr
            self.dead = old_dead
            del self.guards[n:]
            self.st = State(old_env, self.st.heap, self.st.chan)
        if not fr.rets:
            # never returns normally
            self.fr.raises.append(and_(self.guards[self.fr.g0:]))
            self.dead = True
            return NONE
        for r in fr.raises:
            self.fr.raises.append(and_(self.guards[self.fr.g0:] + [r]))
            self.guards.append(not_(r))
        if len(fr.rets) == 1 and not isinstance(fr.rets[0][1], Term):
            return fr.rets[0][1]
        return self.merge_rets([(g, self.snap(v)) for g, v in fr.rets])

    def call_closure(self, f, args, kw):
        node = f.node
        if f.name != "<lambda>" and (f.name in self.stack or len(self.stack) > 14):
            return T("call", T("g", "local." + f.name), *self.argterms(args, kw))
        fn = Fn("local." + f.name, node, f.fr.mod) if isinstance(node, ast.FunctionDef) else None
        env = dict(f.env)
        env.pop("#caller", None)
        if fn is None:
            a = node.args
            ps = [x.arg for x in a.args]
            ds = dict(zip(ps[len(ps) - len(a.defaults):], a.defaults))
            for p, v in zip(ps, args):
                env[p] = v
            env.update({k: v for k, v in kw.items() if k in ps})
            for p in ps:
                if p not in env and p in ds:
                    env[p] = self.ex(ds[p])
            fr = Frame(f.fr.fn, f.fr.mod)
            return self.enter_fn(None, env, fr, "<lambda>", node.body)
        b = self.bind(fn, args, kw)
        if b is None:
            return T("call", T("g", "local." + f.name), *self.argterms(args, kw))
        env.update(b)
        return self.enter_fn(node.body, env, Frame(fn, f.fr.mod), f.name)

    def call_global(self, q, args, kw, e):
        q = self.pkg.resolve(q)
        fn = self.pkg.fns.get(q)
        if fn is not None:
            if fn.cls and fn.classm:
                return self.call_fn(fn, [T("g", fn.cls)] + args, kw, e)
            return self.call_fn(fn, args, kw, e)
        r = self.builtin(q, args, kw, e)
        if r is not None:
            return r
        if q in self.pkg.classes:
            return self.construct(q, args, kw)
        ts = self.argterms(args, kw)
        t = T("call", T("g", q), *ts)
        if q in ("builtins.print",):
            self.event("out", T("mcall", self.guard(), "print"))
            return NONE
        if q.endswith(".__init__") or q in ("numpy.copyto", "numpy.put", "numpy.place", "numpy.fill_diagonal", "numpy.putmask", "random.shuffle", "builtins.delattr"):
            if args:
                if isinstance(args[0], Obj):
                    self.update(args[0], T("mcall", self.guard(), q, *ts[1:]))
                else:
                    self.event(self.root(ts[0]), T("mcall", self.guard(), q, *ts))
            return NONE
        if q.startswith("_vmecpp") or q.startswith("vmecpp.cpp"):
            return t
        if q.startswith(("builtins.open", "netCDF4.Dataset", "tempfile.TemporaryDirectory")):
            self.event("fs", T("mcall", self.guard(), q, *ts))
            return t
        if q.startswith(PURE_ROOTS) or q in self.pkg.classes or q.split(".")[-1][:1].isupper():
            return t
        if q.startswith(("os.", "shutil.", "subprocess.", "tempfile.", "json.dump", "json.load", "sys.", "atexit.", "signal.")):
            # the value may depend on the outcome
            self.event("fs", T("mcall", self.guard(), q, *ts))
            return t
        if q.startswith(("contextlib.", "vmecpp.")):
            return t
        # other functions may change what they are given
        for a in args:
            if isinstance(a, Obj):
                self.update(a, T("mcall", self.guard(), "passed", t))
        return t

    def construct(self, q, args, kw):
        node, m = self.pkg.classes[q]
        init = self.pkg.method(q, "__init__")
        ts = self.argterms(args, kw)
        return T("call", T("g", q), *ts)

    def builtin(self, q, args, kw, e):
        if q.startswith("builtins."):
            n = q[9:]
            ts = [self.snap(a) for a in args]
            if n == "getattr" and len(ts) >= 2:
                k = ts[1]
                if is_k(k) and len(ts) == 2:
                    return self.attr(args[0], kval(k))
                if len(ts) == 2:
                    if isinstance(args[0], Obj):
                        return T("at", self.st.heap[args[0].n], k)
                    if ts[0].op in ("v", "at", "it"):
                        return self.read_ext(ts[0], "at", k)
                    return T("at", ts[0], k)
                return T("call", T("g", q), *ts)
            if n == "setattr" and len(ts) == 3:
                key = kval(ts[1]) if is_k(ts[1]) else ts[1]
                self.store(args[0], "at", key, ts[2])
                return NONE
            if n == "isinstance" and len(ts) == 2:
                c = ts[1]
                if c.op == "tuple":
                    return or_([T("cmp", "isa", ts[0], x) for x in c.args])
                if c.op == "op" and c.args[0] == "|":
                    return or_([T("cmp", "isa", ts[0], x) for x in c.args[1:]])
                return T("cmp", "isa", ts[0], c)
            if n == "sum" and ts and not kw:
                s = self.as_list(ts[0])
                if s is not None:
                    return self.total(s, ts[1] if len(ts) > 1 else K(0))
            if n in ("any", "all") and len(ts) == 1:
                s = self.as_list(ts[0])
                if s is not None:
                    out = []
                    for x in s:
                        if x.op == "seg":
                            c = self.truth(x.args[3])
                            c = c if n == "any" else not_(c)
                            out.append(T("any", x.args[0], x.args[1], and_([x.args[2], c]), TRUE, x.args[4]))
                        elif x.op == "opt":
                            c = self.truth(x.args[1])
                            out.append(and_([x.args[0], c if n == "any" else not_(c)]))
                        else:
                            c = self.truth(x)
                            out.append(c if n == "any" else not_(c))
                    return or_(out) if n == "any" else not_(or_(out))
            if n in ("list", "tuple", "set") and len(ts) <= 1 and not kw:
                if not ts:
                    return T(n)
                s = self.as_list(ts[0])
                if s is not None:
                    return T(n, *s)
                items = self.constant_items(ts[0])
                if items is not None:
                    return T(n, *items)
            if n == "dict" and not ts and not any(k.startswith("**") for k in kw):
                return T("dict", *[T("pair", K(k), self.snap(v)) for k, v in kw.items()])
            if n == "dict" and len(ts) == 1 and not kw and ts[0].op == "dict":
                return ts[0]
            if n == "len" and len(ts) == 1:
                return self.length(self.flat(ts[0]))
            if n == "str" and len(ts) == 1:
                if self.stringy(ts[0]):
                    return ts[0]
                return T("fmt", ts[0], "", K(""))
            if n == "bool" and len(ts) == 1:
                return self.truth(ts[0])
            if n == "map" and len(ts) == 2 and not kw:
                self.level += 1
                count, elem = self.domain(args[1])
                lv = self.level
                f = args[0]
                if isinstance(f, FnVal):
                    v = self.snap(self.call_closure(f, [elem], {}))
                else:
                    f = self.snap(f)
                    v = self.snap(self.call_global(f.args[0], [elem], {}, e)) if f.op == "g" else T("call", f, elem)
                self.level -= 1
                return T("list", T("seg", count, lv, TRUE, v, NONE))
            if n in ("min", "max") and len(ts) == 2 and not kw:
                a, b = sorted(ts, key=lambda x: x.id)
                return T("call", T("g", q), a, b) if not has(a, lambda t: t.op == "acc") and not has(b, lambda t: t.op == "acc") else T("call", T("g", q), *sorted(ts, key=repr))
            if n == "next" and ts:
                if isinstance(args[0], Term) and self.root(args[0]).op == "v":
                    self.event(self.root(args[0]), T("mcall", self.guard(), "next"))
                return T("call", T("g", q), *ts)
            if n == "type" and len(ts) == 1:
                return T("call", T("g", q), ts[0])
            if n == "super":
                return T("g", "super")
            if n == "hasattr" and len(ts) == 2:
                return T("truth", T("call", T("g", q), *ts))
        if q in ("dataclasses.replace",):
            return T("call", T("g", q), *self.argterms(args, kw))
        return None

    def as_list(self, t):
        t = self.flat(self.norm(t)) if t.op == "upd" else t
        if t.op in ("list", "tuple") and all(x.op != "splice" for x in t.args):
            return list(t.args)
        return None

    def total(self, items, init):
        r = init
        for x in items:
            if x.op == "seg":
                y = x
                s = T("sum", y.args[0], y.args[1], y.args[2], y.args[3], y.args[4]) if y.args[3].op != "seg" else T("sum", y.args[0], y.args[1], y.args[2], self.total([y.args[3]], K(0)), y.args[4])
            elif x.op == "opt":
                s = ite(x.args[0], x.args[1], K(0))
            else:
                s = x
            r = self.arith("+", r, s)
        return r

    def call_method(self, b, name, args, kw, e):
        bt = self.snap(b)
        ts = self.argterms(args, kw)
        # methods of repository classes
        fn = None
        c = self.types.get(bt.id)
        if c is None and bt.op == "call" and bt.args[0].op == "g" and bt.args[0].args[0] in self.pkg.classes:
            c = bt.args[0].args[0]
        if c is not None:
            fn = self.pkg.method(c, name)
        elif name.startswith("_") and not name.startswith("__"):
            fs = self.pkg.methods.get(name, [])
            fn = fs[0] if len(fs) == 1 else None
        if fn is not None and not fn.prop:
            a = list(args)
            if not fn.static:
                a = [b if not fn.classm else T("g", fn.cls)] + a
            return self.call_fn(fn, a, kw, e)
        if name == "join" and len(args) == 1 and (self.stringy(bt)):
            s = self.as_list(ts[0])
            if s is not None and bt is K(""):
                return self.total(s, K(""))
            if s is not None:
                return T("cat", T("meth", bt, "join", T("list", *s)))
            return T("cat", T("meth", bt, name, *ts))
        if self.stringy(bt) and name in ("upper", "lower", "strip", "format", "replace", "removeprefix", "removesuffix"):
            if is_k(bt) and not ts and name in ("upper", "lower", "strip"):
                return K(getattr(kval(bt), name)())
            return T("cat", T("meth", bt, name, *ts))
        if name == "replace" and len(args) == 1:
            self.event("fs", T("mcall", self.guard(), name, bt, *ts))
            return T("meth", bt, name, *ts)
        if name == "get" and len(ts) in (1, 2) and not kw and not is_k(bt):
            if isinstance(b, Obj) and is_k(ts[0]):
                base = self.flat(bt)
                r = self.known_item(base, ts[0]) if base.op == "dict" else None
                if r is not None:
                    return r
            return ite(T("cmp", "in", ts[0], bt), self.item(b, ts[0]), ts[1] if len(ts) == 2 else NONE)
        if isinstance(b, Obj):
            if name in PURE_METHODS:
                if name == "items" or name == "keys" or name == "values" or name == "get":
                    if name == "get" and is_k(ts[0]):
                        base = self.flat(bt)
                        r = self.known_item(base, ts[0]) if base.op == "dict" else None
                        if r is not None:
                            return r
                return T("meth", bt, name, *ts)
            if name in FS_METHODS:
                self.event("fs", T("mcall", self.guard(), name, bt, *ts))
                return T("meth", bt, name, *ts)
            if name == "update" and not ts:
                return NONE
            r = T("meth", bt, name, *ts)
            self.update(b, T("mcall", self.guard(), name, *ts))
            if self.is_file(bt):
                self.event("fs", T("mcall", self.guard(), name, self.fileid(bt), *ts))
            if name not in STRMUT:
                return r
            if name in ("setdefault", "pop"):
                return r
            return NONE
        if name in FS_METHODS:
            self.event("fs", T("mcall", self.guard(), name, bt, *ts))
            return T("meth", bt, name, *ts)
        if name in PURE_METHODS:
            return T("meth", bt, name, *ts)
        root = self.root(bt)
        if root.op in ("v", "g", "acc", "call", "bv", "meth", "ite", "post", "last"):
            ch = root if root.op in ("v", "g") else None
            key = self.chan_name(ch) if ch is not None else "local"
            hist = self.st.chan.get(key, ())
            self.event(key, T("mcall", self.guard(), name, bt, *ts))
            if hist and ch is not None:
                return T("meth", bt, name, *(ts + [T("hist", *[x.args[0] if x.op == "ctx" else x for x in hist])]))
        return T("meth", bt, name, *ts)

    def is_file(self, t):
        while t.op == "upd":
            t = t.args[0]
        return t.op == "call" and t.args[0].op == "g" and t.args[0].args[0] in ("builtins.open", "netCDF4.Dataset", "with-enter")

    def fileid(self, t):
        while t.op == "upd":
            t = t.args[0]
        return t
