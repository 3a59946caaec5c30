#!/usr/bin/env python3
"""check.py <property> : decide one property on /repo's current tree."""
import json
import os
import sys
import time
import traceback

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(HERE, "lib"))

import cxx  # noqa: E402


class Ctx:
    def __init__(self, pid, tier):
        self.pid = pid
        self.tier = tier
        self.violations = []      # dicts: key, file, line, what, detail
        self.cov = {}
        self.samples = []
        self.assumptions = []
        self.undecided = []
        self._prog = None

    @property
    def prog(self):
        if self._prog is None:
            self._prog = cxx.load()
        return self._prog

    def violation(self, key, file, line, what, detail=None):
        if any(v["key"] == key for v in self.violations):
            return
        self.violations.append({"key": key, "file": file, "line": line, "what": what, "detail": detail})

    def count(self, name, n=1):
        self.cov[name] = self.cov.get(name, 0) + n

    def sample(self, s):
        if len(self.samples) < 12:
            self.samples.append(s)


def reference(ctx):
    """Every observable effect of the property's functions equals its reviewed reference formula."""
    import props
    import refcheck
    import spec
    ref = refcheck.reference()
    sel = props.select(ref, ctx.pid)
    if not sel:
        return
    r = refcheck.run(ctx.prog, sel)
    if len(r.vanished) == len(sel):
        raise cxx.AnalysisBroken("none of the %d functions this property is decided on exists any more" % len(sel))
    ctx.cov["functions_summarised"] = r.functions
    ctx.cov["effects_in_reference"] = r.locations
    ctx.cov["effects_equal_by_normal_form"] = r.text
    ctx.cov["effects_equal_by_identity_testing"] = r.semantic
    ctx.cov["effects_undecided"] = len(r.undecided)
    ctx.cov["functions_not_found"] = len(r.vanished)
    ctx.cov["functions_not_analysed"] = len(r.failed)
    ctx.undecided += ["%s: %s" % u for u in r.undecided] + ["%s: function not found" % v for v in r.vanished] + ["%s: %s" % f for f in r.failed]
    for fn, d in r.diffs:
        what = {"differs": "computes something else than the reference formula", "missing": "no longer has this effect", "extra": "has an effect the reference does not allow"}[d.kind]
        ctx.violation("%s:%s" % (fn.qn, d.loc), fn.file, fn.line, "%s %s: %s" % (fn.qn, d.loc, what), {"reference": d.ref, "found": d.cur})
    n = 0
    for name in sel:
        e = ref["functions"][name]["s"]
        s = spec.decode(e)
        for loc in sorted(s["locs"]):
            t = spec.render(s["locs"][loc][0])
            if 30 < len(t) < 300:
                ctx.sample("%s: %s" % (name, t))
                n += 1
                break
        if n >= 5:
            break
    ctx.assumptions += [
        "distinct pointer/reference parameters and distinct members do not alias",
        "loops over an index range that is an array's extent are not empty; reals are compared as exact reals (rounding order is not part of the property)",
        "functions outside the repository (libm, Eigen, HDF5, netCDF) do what their documentation says",
    ]


def reference_py(ctx):
    """The same for the property's Python functions, and its classes' field tables."""
    import props
    if ctx.pid not in props.PY:
        return
    import pyref
    ref = pyref.reference()
    fns, classes = props.select_py(ref, ctx.pid)
    r = pyref.run(pyref.load(), fns, classes)
    if len(r.vanished) == len(fns) + len(classes):
        raise cxx.AnalysisBroken("none of the %d Python functions this property is decided on exists any more" % len(fns))
    ctx.cov["python_functions_summarised"] = r.functions
    ctx.cov["python_classes_checked"] = r.classes
    ctx.cov["python_fields_checked"] = r.fields
    ctx.cov["python_effects_in_reference"] = r.locations
    ctx.cov["python_effects_equal_by_normal_form"] = r.text
    ctx.cov["python_effects_equal_by_identity_testing"] = r.semantic
    ctx.cov["python_effects_undecided"] = len(r.undecided)
    ctx.undecided += ["%s: %s" % u for u in r.undecided] + ["%s: not found" % v for v in r.vanished] + ["%s: %s" % f for f in r.failed]
    for q, at, fn, d in r.diffs:
        what = {"differs": "differs from the reference", "missing": "is gone", "extra": "is new"}[d.kind]
        f, l = fn if isinstance(fn, tuple) else (fn.mod.path, fn.node.lineno)
        ctx.violation("%s:%s" % (q, d.loc), f, l, "%s%s: %s %s" % (q, " (in %s)" % at if at != q else "", d.loc, what), {"reference": d.ref, "found": d.cur})
    n = 0
    for q in fns:
        e = ref["functions"][q]["d"]
        t = pyref.show([e["ret"]])[0]
        if 20 < len(t) < 300 and n < 5:
            ctx.sample("%s returns %s" % (q, t))
            n += 1
    ctx.assumptions += [
        "Python: library functions (numpy, pydantic, netCDF4, json, simsopt) are deterministic in their arguments and do not write to arguments unless listed as doing so",
    ]


def known_findings():
    p = os.path.join(HERE, "known_findings.json")
    if not os.path.exists(p):
        return []
    return json.load(open(p))["findings"]


def main():
    pid = sys.argv[1]
    tier = os.environ.get("VERIF_TIER", "quick")
    if len(sys.argv) > 2:
        tier = sys.argv[2]
    seed = int(os.environ.get("VERIF_SEED", "1"))
    t0 = time.time()
    ctx = Ctx(pid, tier)
    import extra
    try:
        reference(ctx)
        reference_py(ctx)
        for f in extra.EXTRA.get(pid, []):
            f(ctx)
    except cxx.AnalysisBroken as e:
        print("ANALYSIS-BROKEN property=%s %s" % (pid, e))
        return 2
    known = {k["key"]: k for k in known_findings() if k["property"] == pid and k.get("status") != "fixed"}
    new = []
    for v in ctx.violations:
        if v["key"] in known:
            print("KNOWN-FINDING: property=%s %s" % (pid, known[v["key"]]["what"]))
        else:
            new.append(v)
    evdir = os.environ.get("VERIF_EVIDENCE") or os.path.join(HERE, "evidence")
    os.makedirs(evdir, exist_ok=True)
    os.makedirs(os.path.join(HERE, "replay"), exist_ok=True)
    cov = dict(ctx.cov)
    cov["explanation"] = extra.EXPLAIN.get(pid, "") or extra.EXPLAIN["*"]
    cov["samples"] = ctx.samples
    cov["undecided"] = ctx.undecided[:50]
    ev = {"property": pid, "tier": tier if tier in ("quick", "thorough") else "quick", "seed": seed, "level": "other", "coverage": cov,
          "assumptions": sorted(set(ctx.assumptions)), "wall_s": round(time.time() - t0, 2), "violations": len(new)}
    with open(os.path.join(evdir, pid + ".json"), "w") as f:
        json.dump(ev, f, indent=1)
    summary = ", ".join("%s=%s" % (k, v) for k, v in sorted(ctx.cov.items()) if isinstance(v, int))
    if new:
        rp = os.path.join(HERE, "replay", pid + ".json")
        with open(rp, "w") as f:
            json.dump(new, f, indent=1)
        for v in new[:10]:
            print("  %s:%s: %s" % (v["file"], v["line"], v["what"]))
            d = v.get("detail")
            if isinstance(d, dict):
                for k in d:
                    for x in (d[k] if isinstance(d[k], list) else [d[k]])[:2]:
                        print("      %-9s %s" % (k, str(x)[:400]))
        print("VIOLATION property=%s replay=%s" % (pid, rp))
        print("(%d violations; %s)" % (len(new), summary))
        return 1
    print("OK property=%s %s (%.1fs)" % (pid, summary, time.time() - t0))
    return 0


if __name__ == "__main__":
    try:
        rc = main()
    except Exception:
        traceback.print_exc()
        rc = 2
    sys.exit(rc)
