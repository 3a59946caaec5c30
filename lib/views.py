"""Classes whose members are views into arrays they own: every constructor and assignment must bind each view to
the same array of the object itself (a view left on another object's storage aliases or dangles)."""
import json
import os
import sys

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
import cxx  # noqa: E402


def path():
    return os.path.join(HERE, "..", "spec", "views.json")


def source(e, own):
    """Name of the object's own array an expression views, None when there is none or several."""
    names, foreign = [], False
    for x in cxx.walk(e):
        if x["k"] == "mem" and x.get("mk") == "field":
            b = x["b"]
            while isinstance(b, dict) and b["k"] in ("cast", "paren") and "e" in b:
                b = b["e"]
            if b["k"] == "this":
                names.append(x["n"])
            elif b["k"] == "ref" and b.get("dk") == "param":
                foreign = True
                names.append("other." + x["n"])
    names = sorted(set(names))
    return names[0] if len(names) == 1 else None


def bound(prog, fn, spans, seen=()):
    out = {}
    for i in fn.inits:
        if i.get("f") in spans and i.get("e") is not None:
            out[i["f"]] = source(i["e"], spans)
        elif i.get("f") is None and isinstance(i.get("e"), dict) and i["e"].get("k") == "ctor" and i["e"].get("key") in prog.fns:
            g = prog.fns[i["e"]["key"]]
            if g.cls == fn.cls and g.key not in seen:
                out.update(bound(prog, g, spans, seen + (fn.key,)))
    if fn.body is None:
        return out
    for x in cxx.walk(fn.body):
        if x["k"] in ("bin", "opcall") and x.get("op") == "=":
            l, r = (x["l"], x["r"]) if x["k"] == "bin" else x["args"][:2]
            if l["k"] == "mem" and l["n"] in spans and l["b"]["k"] == "this":
                out[l["n"]] = source(r, spans)
        elif x["k"] in ("mcall", "call"):
            g = prog.fns.get(x.get("key"))
            if g is not None and g.key not in seen and g.cls == fn.cls:
                o = x.get("obj")
                if o is None or o["k"] == "this" or o["k"] == "un" and o["e"]["k"] == "this":
                    out.update(bound(prog, g, spans, seen + (fn.key,)))
            for a in x["args"]:
                for y in cxx.walk(a):
                    if y["k"] == "mem" and y["n"] in spans and y["b"]["k"] == "this":
                        out.setdefault(y["n"], None)
    return out


def kind(f, cls):
    """Which special member a function is."""
    s = cls.rsplit("::", 1)[-1]
    if f.ctor:
        if len(f.params) == 1:
            t = f.types[f.params[0]["t"]]
            if s in t:
                return "move constructor" if t.rstrip().endswith("&&") else "copy constructor"
        return "constructor"
    if f.name == "operator=" and len(f.params) == 1:
        t = f.types[f.params[0]["t"]]
        return "move assignment" if t.rstrip().endswith("&&") else "copy assignment" if t.rstrip().endswith("&") else "assignment"
    return None


def table(prog):
    out = {}
    for q, r in prog.records.items():
        spans = {f["n"] for f in r["fields"] if "std::span<" in f["ty"]}
        if len(spans) < 3:
            continue
        d = {}
        for f in prog.fns.values():
            if f.cls == q:
                k = kind(f, q)
                if k:
                    d.setdefault(k, []).append((bound(prog, f, spans), f))
        if d:
            out[q] = d
    return out


def write(prog):
    d = {}
    for q, v in table(prog).items():
        e = {k: m[0][0] for k, m in v.items()}
        if all(x and all(y and not y.startswith("other.") for y in x.values()) for x in e.values()):
            d[q] = e
    with open(path(), "w") as f:
        json.dump(d, f, indent=1, sort_keys=True)
        f.write("\n")
    return d


def check(prog):
    ref = json.load(open(path()))
    cur = table(prog)
    bad, und, n = [], [], 0
    for q, kinds in sorted(ref.items()):
        r = prog.records.get(q)
        if r is None:
            und.append("%s: class not found" % q)
            continue
        spans = {f["n"] for f in r["fields"] if "std::span<" in f["ty"]}
        for k, m in sorted(kinds.items()):
            n += len(m)
            now = cur.get(q, {}).get(k)
            if not now:
                if spans & set(m) and any("move" not in x for x in (k,)):
                    bad.append(("%s:%s" % (q, k), r["file"], r["p"][0], "%s: the %s no longer binds the views to the object's own arrays (compiler-generated, it copies the other object's views)" % (q, k)))
                else:
                    und.append("%s: %s not found" % (q, k))
                continue
            for b, f in now:
                for s, a in sorted(m.items()):
                    if s not in spans:
                        und.append("%s: %s is not a view any more" % (q, s))
                    elif s not in b:
                        bad.append(("%s:%s:%s" % (q, k, s), f.file, f.line, "%s: the %s does not bind %s to the object's own array" % (q, k, s)))
                    elif b[s] is None:
                        und.append("%s: %s: what %s views is not recognised" % (q, k, s))
                    elif b[s] != a and (b[s].startswith("other.") or b[s] in m.values()):
                        bad.append(("%s:%s:%s" % (q, k, s), f.file, f.line, "%s: the %s binds %s to %s instead of %s" % (q, k, s, b[s], a)))
                    elif b[s] != a:
                        und.append("%s: %s: %s views %s" % (q, k, s, b[s]))
    return bad, und, n


if __name__ == "__main__":
    prog = cxx.load()
    if "--write" in sys.argv:
        d = write(prog)
        print({k: {x: len(y) for x, y in v.items()} for k, v in d.items()})
    else:
        print(check(prog))
