"""Regenerate /verif/spec from a reviewed tree (run by hand, never by a check)."""
import gzip
import json
import multiprocessing
import os
import signal
import sys
import time

import absint
import cxx
import spec

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
LIMIT = 40


def opaque_set(prog, thr=450):
    own, calls = {}, {}
    for k, f in prog.fns.items():
        n, cs = 0, []
        if f.body is not None:
            for x in cxx.walk(f.body):
                n += 1
                if "key" in x and x["key"] in prog.fns and x["key"] != k:
                    cs.append(x["key"])
        own[k], calls[k] = n, cs
    memo = {}

    def w(k, st=()):
        if k in memo:
            return memo[k]
        if k in st:
            return 0
        r = own[k]
        for c in calls[k]:
            x = w(c, st + (k,))
            r += 20 if x > thr else x
        memo[k] = r
        return r

    return sorted({f.qn for k, f in prog.fns.items() if w(k) > thr})


class TO(Exception):
    pass


def _alarm(*a):
    raise TO()


PROG = None
CFG = {}


def setup(cfg):
    """What is known about calls that are not followed: opaque functions and their effects."""
    rw = {k: tuple(tuple(((p[0],) if p[0] == "this" else ("param", p[0]),) + tuple(p[1:]) for p in x) for x in v) for k, v in cfg.get("rw", {}).items()}
    return {"opaque": cfg["opaque"], "opaque2": cfg.get("opaque2", ()), "coarse": set(cfg.get("coarse", ())), "plain": set(cfg.get("plain", ())), "rw": rw}


def plain(rw):
    return {k: [[[p[0][-1]] + list(p[1:]) for p in x] for x in v] for k, v in rw.items()}


def summarise(prog, fn, cfg):
    opq = cfg["opaque2"] if spec.fkey(fn, prog) in cfg["coarse"] else cfg["opaque"]
    return spec.collect(prog, fn, opq, rw=None if spec.fkey(fn, prog) in cfg["plain"] else cfg["rw"])


def work(key):
    f = PROG.fns[key]
    signal.signal(signal.SIGALRM, _alarm)
    signal.alarm(LIMIT)
    t = time.time()
    try:
        s = summarise(PROG, f, CFG)
        j = spec.encode(s)
        un = sum(spec.unresolved(u) for v in s["locs"].values() for u in v)
        return key, j, un, time.time() - t, None
    except TO:
        return key, None, 0, time.time() - t, "timeout"
    except RecursionError:
        return key, None, 0, time.time() - t, "recursion"
    except Exception as e:  # reported, and the function then has no reference
        import traceback
        tb = traceback.extract_tb(e.__traceback__)[-1]
        return key, None, 0, time.time() - t, "%r at %s:%d" % (e, os.path.basename(tb.filename), tb.lineno)
    finally:
        signal.alarm(0)


def collect_all(prog, keys, cfg, limit=40, procs=8, job=None):
    global PROG, CFG, LIMIT
    PROG, CFG, LIMIT = prog, setup(cfg), limit
    sys.setrecursionlimit(20000)
    keys = sorted(keys, key=lambda k: -len(json.dumps(prog.fns[k].body)) if prog.fns[k].body else 0)
    with multiprocessing.get_context("fork").Pool(procs, maxtasksperchild=40) as pool:
        yield from pool.imap_unordered(job or work, keys, chunksize=1)


def effects(prog, opq, opq2, coarse):
    """Effects of the functions that are not followed, callees before callers."""
    names = set(opq) | set(opq2)
    keys = [k for k, f in prog.fns.items() if f.body is not None and f.qn in names]
    cfg = {"opaque": opq, "opaque2": opq2, "coarse": coarse, "rw": {}, "plain": []}
    for n in range(6):
        ss = []
        for key, j, un, t, err in collect_all(prog, keys, cfg, 80):
            if not err:
                ss.append((absint.rwkey(prog.fns[key]), spec.decode(j)))
        ss.sort(key=lambda x: x[0])
        new = plain(spec.rw_sets(ss))
        for k, v in cfg["rw"].items():      # a function that could not be summarised this time keeps its effects
            new.setdefault(k, v)
        print("effects pass", n, len(new), sum(len(w) + len(r) for w, r in new.values()))
        if new == cfg["rw"]:
            break
        cfg["rw"] = new
    return cfg


def main():
    prog = cxx.load()
    opq = opaque_set(prog)
    opq2 = opaque_set(prog, 40)
    coarse = ["vmecpp::IdealMhdModel::update", "vmecpp::Nestor::update"]
    if "--keep" in sys.argv:        # effect sets of the existing reference
        import refcheck
        cfg = {"opaque": opq, "opaque2": opq2, "coarse": coarse, "rw": refcheck.reference()["rw"]}
    else:
        cfg = effects(prog, opq, opq2, coarse)
    cfg["plain"] = ["vmecpp::Vmec::run"]    # too many effects per iteration: calls stay uninterpreted there
    keys = [k for k, f in prog.fns.items() if f.body is not None]
    out, errs, tot = {}, [], 0
    for key, j, un, t, err in collect_all(prog, keys, cfg, 80):
        f = prog.fns[key]
        if err:
            errs.append((f.qn, err))
            continue
        sz = len(json.dumps(j))
        if t > 5 or sz > 300000:
            print("big", f.qn, round(t, 1), sz, un)
        out[spec.fkey(f, prog)] = {"file": f.file, "s": j, "un": un, "sz": sz}
        tot += 1
    for e in errs:
        print("ERR", e)
    members = sorted({x["n"] for r in prog.records.values() for x in r["fields"]})
    d = dict(cfg, version=spec.VERSION, members=members, functions=out)
    p = os.path.join(HERE, "spec", "summaries.json.gz")
    with gzip.GzipFile(p, "wb", mtime=0) as g:
        g.write(json.dumps(d, sort_keys=True).encode())
    print(tot, "functions", os.path.getsize(p), "bytes")


if __name__ == "__main__":
    main()
