"""What the Python extension module registers: attribute and function names, what each is bound to,
argument names and defaults, enumerator names. Compared with the reviewed reference table."""
import gzip
import json
import os
import re
import sys

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
import cxx  # noqa: E402

CLS = re.compile(r"pybind11::(?:class_|native_enum|enum_)<([^,>]+(?:<[^>]*>)?)[^:]*>")
REG = re.compile(r"^(pybind11::(class_|native_enum|enum_)(<.*>)?|pybind11::module_)::(def\w*|value|attr)$")
RO = {"def_readonly", "def_property_readonly", "def_readonly_static", "def_property_readonly_static"}
RW = {"def_readwrite", "def_property", "def_readwrite_static", "def_property_static"}


def path():
    return os.path.join(HERE, "..", "spec", "bindings.json.gz")


def short(t):
    t = re.sub(r"^(const )?", "", t).strip()
    return t.split("<")[0].split("::")[-1]


def peel(e):
    while isinstance(e, dict):
        if e["k"] in ("cast", "paren") and "e" in e:
            e = e["e"]
        elif e["k"] == "ctor" and len(e.get("args", ())) == 1 and e.get("qn", "").rsplit("::", 1)[-1] in ("optional", "unique_ptr", "shared_ptr", "cpp_function"):
            e = e["args"][0]
        else:
            break
    return e


def strings(e):
    return [x["v"] for x in cxx.walk(e) if x["k"] == "str"]


def literal(e):
    """Text of a default value, None when it is not a plain constant."""
    e = peel(e)
    k = e["k"]
    if k == "ref":
        return e.get("qn") or e["n"]
    if k == "lit":
        return str(e.get("cv", e.get("v")))
    if k == "str":
        return repr(e["v"])
    if k == "nullptr":
        return "null"
    if k in ("int", "float", "bool", "num"):
        return str(e.get("v"))
    if k == "un":
        s = literal(e["e"])
        return None if s is None else e["op"] + s
    if k in ("call", "ctor"):
        a = [literal(x) for x in e.get("args", ())]
        return None if None in a else "%s(%s)" % (e.get("qn") or e.get("n"), ",".join(a))
    return None


def argument(e):
    """(name, default) of a py::arg("x"), "x"_a or py::arg("x") = v; None for anything else."""
    e = peel(e)
    if e["k"] == "opcall" and e.get("op") == "=" and len(e["args"]) == 2:
        a = argument(e["args"][0])
        return a and (a[0], literal(e["args"][1]))
    if e["k"] == "mcall" and e.get("n") == "operator=":
        a = argument(e["obj"])
        return a and (a[0], literal(e["args"][0]))
    if e["k"] in ("ctor", "call", "opcall", "udl", "lit") and ("pybind11::arg" in (e.get("qn") or "") or (e.get("n") or "").startswith('operator""') or "_a" == e.get("op")):
        if e["k"] == "ctor" and e.get("args") and peel(e["args"][0])["k"] != "str":
            return argument(e["args"][0])
        s = strings(e)
        return (s[0], "") if s else None
    return None


def returned(body):
    c = body.get("c", [body]) if body["k"] == "block" else [body]
    c = [x for x in c if x["k"] != "null"]
    return peel(c[0]["e"]) if len(c) == 1 and c[0]["k"] == "ret" and c[0].get("e") else None


def target(e, fns):
    e = peel(e)
    if e["k"] == "un" and e["op"] == "&":
        e = peel(e["e"])
    if e["k"] == "ref" and e.get("dk") == "func":
        return ("function", e["qn"])
    if e["k"] == "ref" and e.get("dk") == "enum":
        return ("enumerator", e["qn"])
    if e["k"] == "ref" and e.get("dk") == "other":
        return ("field", e["n"])
    if e["k"] == "lambda" and e["fns"]:
        f = e["fns"][0]
        r = returned(f["body"])
        ids = [p["id"] for p in f["params"]]
        if r is not None and ids:
            if r["k"] == "mem" and r.get("mk") == "field" and peel(r["b"]).get("id") == ids[0]:
                return ("field", r["n"])
            if r["k"] == "mcall" and peel(r["obj"]).get("id") == ids[0] and [peel(a).get("id") for a in r["args"]] == ids[1:]:
                return ("function", r["qn"])
            if r["k"] == "call" and r.get("qn") and [peel(a).get("id") for a in r["args"]] == ids:
                return ("function", r["qn"])
        return ("lambda", f)
    return None


def registrations(prog):
    """[(class, kind, name, targets, arguments, file, line, owner)] and every string literal of the binding files."""
    out, texts = [], set()
    for f in prog.fns.values():
        if "/pybind" not in f.file or f.body is None:
            continue
        for x in cxx.walk(f.body):
            if x["k"] == "str":
                texts.add(x["v"])
            if x["k"] == "mcall" and REG.match(x.get("qn") or ""):
                cls = CLS.search(x["qn"])
                if cls is None:
                    o = peel(x["obj"])
                    cls = CLS.search(f.types[o["t"]]) if "t" in o else None
                cls = short(cls.group(1)) if cls else ("module" if "module_" in x["qn"] else "?")
                args = list(x["args"])
                name = None
                if args and peel(args[0])["k"] == "str":
                    name = peel(args[0])["v"]
                    args = args[1:]
                elif args and args[0]["k"] == "call" and (args[0].get("qn") or "").startswith("pybind11::init"):
                    name = "__init__"
                    args = args[0].get("args", []) + args[1:]
                if name is None:
                    continue
                kind = x["n"]
            elif x["k"] == "call" and x.get("args") and not (x.get("qn") or "").startswith(("std::", "pybind11::")):
                o = peel(x["args"][0])
                cls = CLS.search(f.types[o["t"]]) if isinstance(o, dict) and "t" in o else None
                if cls is None:
                    continue
                cls = short(cls.group(1))
                args = list(x["args"][1:])
                s = strings(args[0]) if args else []
                if len(s) != 1:
                    continue
                name, args, kind = s[0], args[1:], "helper " + x["n"]
            else:
                continue
            ts, as_ = [], []
            for a in args:
                t = target(a, prog.fns)
                if t is not None:
                    ts.append(t)
                    continue
                g = argument(a)
                if g is not None:
                    as_.append(g)
            line = min([a["p"][0] for a in x["args"] if "p" in a and a["p"][0] >= x["p"][0]] or [x["p"][0]])
            out.append((cls, kind, name, ts, as_, f.file, line, f))
    return out, texts


def attach(prog):
    """Functions for the bodies of bound lambdas, so that they are summarised like any other function."""
    n = {}
    for cls, kind, name, ts, as_, file, line, owner in registrations(prog)[0]:
        for t in ts:
            if t[0] != "lambda":
                continue
            d = t[1]
            q = "binding::%s::%s" % (cls, name)
            n[q] = n.get(q, 0) + 1
            if n[q] > 1:
                q += str(n[q])
            k = "c:@" + q
            if k in prog.fns:
                continue
            f = cxx.Fn({"key": k, "qn": q, "n": name, "file": file, "p": [line, 1], "endl": line, "params": d["params"], "body": d["body"], "rt": d["rt"]}, owner.types, owner.unit)
            prog.fns[k] = f
            prog.by_qn.setdefault(q, []).append(f)
            prog.fns_by_unit[owner.unit].append(f)


def table(prog):
    regs, texts = registrations(prog)
    out = {}
    for cls, kind, name, ts, as_, file, line, _ in regs:
        acc = "ro" if kind in RO else "rw" if kind in RW or kind.startswith("helper") else "static" if "static" in kind else "value" if kind == "value" else "call"
        e = {"access": acc, "target": [[t[0], t[1] if t[0] != "lambda" else ""] for t in ts], "args": [list(a) for a in as_]}
        out.setdefault(cls + "." + name, []).append((e, file, line))
    fields = sorted({f["n"] for r in prog.records.values() for f in r["fields"]})
    funcs = sorted({f.qn for f in prog.fns.values()})
    enums = sorted({e["qn"] + "::" + c[0] for e in prog.enums.values() for c in e["vals"]})
    return out, texts, {"field": fields, "function": funcs, "enumerator": enums}


def write(prog):
    t, _, known = table(prog)
    d = {"table": {k: [e for e, _, _ in v] for k, v in t.items()}, "known": known}
    with gzip.GzipFile(path(), "wb", mtime=0) as g:
        g.write(json.dumps(d, sort_keys=True).encode())
    return d


def bare(q):
    return q.rsplit("::", 1)[-1]


def differs(a, b, known):
    """What distinguishes entry b from reference entry a: text, '' for nothing, None when it cannot be told."""
    und = False
    if a["access"] != b["access"]:
        return "access changed from %s to %s" % (a["access"], b["access"])
    if len(a["target"]) == len(b["target"]) or a["target"] and b["target"]:
        for s, t in zip(a["target"], b["target"]):
            if s == t:
                continue
            if s[0] == t[0] and s[0] in known:
                if bare(s[1]) == bare(t[1]):
                    continue
                if t[1] in known[s[0]]:
                    return "bound to %s instead of %s" % (t[1], s[1])
            und = True
    else:
        und = True
    if len(a["args"]) != len(b["args"]):
        return None if not b["args"] and a["args"] else "arguments changed from %s to %s" % (a["args"], b["args"])
    for s, t in zip(a["args"], b["args"]):
        if s[0] != t[0]:
            return "argument %s is now called %s" % (s[0], t[0])
        if s[1] != t[1]:
            if s[1] is None or t[1] is None:
                und = True
            elif (s[1] == "") != (t[1] == "") or not re.search(r"[A-Za-z_]\w*\(", s[1] + t[1]):
                return "default of argument %s changed from %s to %s" % (s[0], s[1] or "none", t[1] or "none")
            else:
                und = True
    return None if und else ""


def check(prog, select=None):
    with gzip.open(path()) as g:
        ref = json.loads(g.read())
    known = {k: set(v) for k, v in ref["known"].items()}
    cur, texts, _ = table(prog)
    bad, und, n = [], [], 0
    where = next((f.file for f in prog.fns.values() if "/pybind" in f.file), "?")
    for k, es in sorted(ref["table"].items()):
        if select and not re.search(select, k):
            continue
        n += len(es)
        now = list(cur.get(k, []))
        if not now:
            if bare(k.replace(".", "::")) in texts or k.endswith("__init__"):
                und.append("%s: registered in a form that is not recognised" % k)
            else:
                bad.append((k, where, 1, "%s is no longer registered" % k))
            continue
        left = []
        for e in es:
            m = next((x for x in now if differs(e, x[0], known) == ""), None)
            if m is not None:
                now.remove(m)
            else:
                left.append(e)
        for e in left:
            if not now:
                (und if len(es) > 1 else bad).append("%s: an overload is gone" % k if len(es) > 1 else (k, where, 1, "%s is gone" % k))
                continue
            x = now.pop(0)
            d = differs(e, x[0], known)
            if d is None:
                und.append("%s: bound differently" % k)
            else:
                bad.append((k, x[1], x[2], "%s: %s" % (k, d)))
    return bad, und, n


if __name__ == "__main__":
    prog = cxx.load()
    if "--write" in sys.argv:
        d = write(prog)
        print(len(d["table"]), "names", {k: len(v) for k, v in d["known"].items()})
        for k, v in d["table"].items():
            for e in v:
                if not e["target"] or any(t[0] == "lambda" for t in e["target"]) or any(a[1] is None for a in e["args"]):
                    print(k, e)
    else:
        b, u, n = check(prog)
        print(n, "registrations", b, u)
