"""Compare the current tree's effect summaries with the reviewed reference."""
import gzip
import json
import os
import time

import cxx
import genspec
import spec

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
_REF = None


def reference():
    global _REF
    if _REF is None:
        with gzip.open(os.path.join(HERE, "spec", "summaries.json.gz")) as f:
            _REF = json.loads(f.read())
    return _REF


class Result:
    def __init__(self):
        self.functions = 0
        self.text = 0
        self.semantic = 0
        self.undecided = []     # (function, location)
        self.diffs = []         # (fn, Diff)
        self.vanished = []
        self.failed = []
        self.locations = 0


JOB = None
ENOUGH = 12     # violations after which the remaining functions need not be examined
TOTAL = 480     # seconds for all comparisons of one check


def examine(key):
    """Summarise one function and compare it with its reference (in a worker process)."""
    prog, want, ref, members, end = JOB
    key, j, un, t, err = genspec.work(key)
    if err:
        return key, err, 0, 0, [], ()
    R = ref["functions"][want[key]]["s"]
    n = len(R["locs"]) + len(R["events"])
    if R == j:
        return key, None, n, 0, [], ()
    rs, cs = spec.decode(R), spec.decode(j)
    now = time.time()
    nt, ns, diffs = spec.compare(prog, prog.fns[key], rs, cs, members, min(now + 150, max(end, now + 5)))
    return key, None, nt, ns, diffs, [e[2][0] for e in rs["events"]]


def run(prog, select, limit=120):
    """select: iterable of reference function keys."""
    global JOB
    ref = reference()
    keys = {}
    for k, f in prog.fns.items():
        if f.body is not None:
            keys.setdefault(spec.fkey(f, prog), k)
    r = Result()
    want = {}
    for name in select:
        k = keys.get(name)
        if k is None and "#" in name:
            # overload set changed size
            k = keys.get(name.split("/")[0])
        if k is None:
            r.vanished.append(name)
        else:
            want[k] = name
    gone = {o for o in list(ref["opaque"]) + list(ref.get("opaque2", ())) if o not in prog.by_qn}
    JOB = prog, want, ref, set(ref["members"]), time.time() + TOTAL
    for key, err, nt, ns, diffs, called in genspec.collect_all(prog, want, ref, limit, job=examine):
        fn = prog.fns[key]
        name = want[key]
        if err:
            r.failed.append((name, err))
            continue
        r.functions += 1
        R = ref["functions"][name]["s"]
        r.locations += len(R["locs"]) + len(R["events"])
        r.text += nt
        r.semantic += ns
        lost = any(c in gone for c in called)
        for d in diffs:
            if d.kind == "undecided":
                r.undecided.append((name, d.loc))
            elif gone and (lost or d.loc.startswith("call ") or any(g in " ".join(d.ref + d.cur) for g in gone)):
                r.undecided.append((name, d.loc))
            else:
                r.diffs.append((fn, d))
        if len(r.diffs) >= ENOUGH:
            break
    return r


if __name__ == "__main__":
    import sys
    prog = cxx.load()
    ref = reference()
    sel = [k for k in ref["functions"] if len(sys.argv) < 2 or sys.argv[1] in k or sys.argv[1] in ref["functions"][k]["file"]]
    r = run(prog, sel)
    print("functions", r.functions, "locations", r.locations, "text", r.text, "semantic", r.semantic, "undecided", len(r.undecided), "vanished", r.vanished, "failed", r.failed)
    for u in r.undecided[:10]:
        print("  undecided", u)
    for fn, d in r.diffs[:20]:
        print("DIFF", fn.qn, fn.file, fn.line, d.kind, d.loc)
        for x in d.ref[:3]:
            print("   - ", x[:600])
        for x in d.cur[:3]:
            print("   + ", x[:600])
