"""Front end: turns /repo's C++ sources into a resolved-AST program.

Every .cc file under the C++ root that belongs to the product (not tests,
benchmarks or vendored code) is parsed by clang with the repository's own
language settings; the AST of every function with a body is dumped by
tool/astdump.  Results are cached under /verif/.cache keyed by a hash of the
unit, of every repository header it includes (transitively), of the tool and of
the shims, so a changed unit is always re-parsed.
"""
import concurrent.futures
import hashlib
import json
import os
import re
import subprocess
import sys

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
CPP = os.path.join(REPO, "src/vmecpp/cpp")
CACHE = os.environ.get("VERIF_CACHE", os.path.join(VERIF, ".cache"))
TOOL_SRC = os.path.join(VERIF, "tool/astdump.cc")
SHIMS = os.path.join(VERIF, "shims")

sys.setrecursionlimit(20000)
if os.environ.get("PYTHONHASHSEED") != "0" and getattr(sys, "argv", None) and sys.argv[0].endswith(".py"):
    # set iteration order must not depend on the run
    os.environ["PYTHONHASHSEED"] = "0"
    os.execv(sys.executable, [sys.executable] + sys.argv)


class AnalysisBroken(Exception):
    """The analysis cannot run (parse failure, vanished anchor)."""


def _sha(paths):
    h = hashlib.sha256()
    for p in sorted(paths):
        h.update(p.encode())
        with open(p, "rb") as f:
            h.update(f.read())
    return h.hexdigest()[:24]


def build_tool():
    os.makedirs(CACHE, exist_ok=True)
    tag = _sha([TOOL_SRC])
    exe = os.path.join(CACHE, "astdump-" + tag)
    if os.path.exists(exe):
        return exe
    tmp = exe + ".%d.tmp" % os.getpid()
    cmd = ["clang++", "-std=c++17", "-O1", "-fno-rtti", "-I/usr/lib/llvm-18/include",
           TOOL_SRC, "-o", tmp, "/usr/lib/llvm-18/lib/libclang-cpp.so.18.1",
           "-L/usr/lib/llvm-18/lib", "-lLLVM-18"]
    r = subprocess.run(cmd, capture_output=True, text=True)
    if r.returncode:
        raise AnalysisBroken("cannot build astdump:\n" + r.stderr[-2000:])
    os.replace(tmp, exe)
    return exe


def product_sources():
    out = []
    for d, dirs, files in os.walk(CPP):
        rel = os.path.relpath(d, CPP)
        if rel.startswith("third_party"):
            dirs[:] = []
            continue
        for f in files:
            if f.endswith(".cc") and not f.endswith(("_test.cc", "_bench.cc")) and "test" not in rel.split(os.sep)[-1:][0]:
                out.append(os.path.normpath(os.path.join(rel, f)))
    # util/testing holds test support code
    return sorted(s for s in out if "testing" not in s and "mockup" not in s and "/test_" not in s)


def _tree_files():
    out = []
    for d, dirs, files in os.walk(CPP):
        if os.path.relpath(d, CPP).startswith("third_party"):
            dirs[:] = []
            continue
        out += [os.path.join(d, f) for f in files if f.endswith((".cc", ".h", ".hh", ".hpp"))]
    return out


def clang_args():
    t = "third_party/fftx_codelets"
    inc = [CPP, SHIMS, SHIMS + "/omp", "/usr/include/eigen3", "/usr/include/hdf5/serial",
           "/usr/include/python3.12",
           "/opt/vp/venv/lib/python3.12/site-packages/pybind11/include"]
    inc += [os.path.join(CPP, p) for p in (t, t + "/include", t + "/lib_fftx_iprdftbat_cpu_srcs", t + "/lib_fftx_prdftbat_cpu_srcs")]
    return (["-resource-dir", "/usr/lib/llvm-18/lib/clang/18", "-std=c++20", "-fopenmp", "-w",
             "-ferror-limit=3", "-DEIGEN_DONT_PARALLELIZE", "-include", "verif/pre.h",
             '-DEIGEN_PLAINOBJECTBASE_PLUGIN="verif/eigen_plugin.h"'] + ["-I" + i for i in inc])


class Fn:
    __slots__ = ("key", "qn", "name", "file", "line", "endl", "params", "body", "types", "cls",
                 "ctor", "inits", "static", "virt", "over", "rt", "inst", "unit", "const")

    def __init__(self, d, types, unit):
        self.key = d["key"]
        self.qn = d["qn"]
        self.name = d["n"]
        self.file = d["file"]
        self.line = d["p"][0]
        self.endl = d["endl"]
        self.params = d["params"]
        self.body = d.get("body")
        self.types = types
        self.cls = d.get("cls")
        self.ctor = d.get("ctor", False)
        self.inits = d.get("inits", [])
        self.static = d.get("static", False)
        self.virt = d.get("virt", False)
        self.const = d.get("const", False)
        self.over = d.get("over", [])
        self.rt = types[d["rt"]]
        self.inst = d.get("inst", False)
        self.unit = unit

    def __repr__(self):
        return "<Fn %s %s:%d>" % (self.qn, self.file, self.line)


class Program:
    def __init__(self):
        self.fns = {}
        self.by_qn = {}
        self.records = {}
        self.enums = {}
        self.globals = {}
        self.units = []
        self.overriders = {}
        self.fns_by_unit = {}

    def fn(self, qn, required=True):
        l = self.by_qn.get(qn, [])
        if not l and required:
            raise AnalysisBroken("anchor function %s not found" % qn)
        return l[0] if l else None

    def find(self, suffix):
        return [f for f in self.fns.values() if f.qn == suffix or f.qn.endswith("::" + suffix)]

    def rec(self, qn):
        if qn not in self.records:
            raise AnalysisBroken("anchor record %s not found" % qn)
        return self.records[qn]


class Deps:
    """Content hash of a unit and of every repository header it can include."""
    INC = re.compile(rb'^[ \t]*#[ \t]*include[ \t]*["<]([^">]+)[">]', re.M)

    def __init__(self):
        self.files = {}

    def get(self, rel):
        if rel not in self.files:
            try:
                with open(os.path.join(CPP, rel), "rb") as f:
                    t = f.read()
                self.files[rel] = (hashlib.sha256(t).digest(), [x.decode() for x in self.INC.findall(t)])
            except OSError:
                self.files[rel] = None
        return self.files[rel]

    def tag(self, unit, base):
        seen, todo = {}, [unit]
        while todo:
            r = todo.pop()
            if r in seen:
                continue
            g = self.get(r)
            if g is None:
                continue
            seen[r] = g[0]
            for i in g[1]:
                todo.append(os.path.normpath(i))
                todo.append(os.path.normpath(os.path.join(os.path.dirname(r), i)))
        h = hashlib.sha256(base)
        for r in sorted(seen):
            h.update(r.encode() + seen[r])
        return h.hexdigest()[:20]


def load(units=None):
    """Program of the given product sources (relative paths), or of all."""
    exe = build_tool()
    srcs = product_sources()
    if units is not None:
        missing = [u for u in units if u not in srcs]
        if missing:
            raise AnalysisBroken("anchor source files missing: %s" % missing)
        srcs = [s for s in srcs if s in units]
    base = _sha([TOOL_SRC] + [os.path.join(d, f) for d, _, fs in os.walk(SHIMS) for f in fs]).encode()
    cdir = os.path.join(CACHE, "ast")
    os.makedirs(cdir, exist_ok=True)
    args = clang_args()
    dm = Deps()

    def one(s):
        out = os.path.join(cdir, s.replace("/", "__") + "-" + dm.tag(s, base) + ".json")
        if not os.path.exists(out):
            tmp = out + ".%d.tmp" % os.getpid()
            r = subprocess.run([exe, CPP, tmp, os.path.join(CPP, s), "--"] + args,
                               capture_output=True, text=True, cwd=CPP)
            if r.returncode:
                return s, None, r.stderr[-1500:]
            os.replace(tmp, out)
        else:
            os.utime(out)
        return s, out, ""

    prog = Program()
    with concurrent.futures.ThreadPoolExecutor(8) as ex:
        res = list(ex.map(one, srcs))
    bad = [(s, e) for s, o, e in res if o is None]
    if bad:
        raise AnalysisBroken("clang could not parse %s:\n%s" % (bad[0][0], bad[0][1]))
    for s, o, _ in res:
        with open(o) as f:
            d = json.load(f)
        types = d["types"]
        prog.units.append(s)
        prog.fns_by_unit[s] = []
        for fd in d["functions"]:
            if "/testing/" in fd["file"]:
                continue
            k = fd["key"] or ("%s@%s:%s" % (fd["qn"], fd["file"], fd["p"]))
            # internal-linkage functions get a per-file USR; good enough
            if k in prog.fns:
                continue
            fn = Fn(fd, types, s)
            prog.fns[k] = fn
            prog.by_qn.setdefault(fn.qn, []).append(fn)
            prog.fns_by_unit[s].append(fn)
            for ov in fn.over:
                prog.overriders.setdefault(ov, []).append(k)
        for r in d["records"]:
            r["types"] = types
            for f in r["fields"]:
                f["ty"] = types[f["t"]]
            prog.records.setdefault(r["qn"], r)
        for e in d["enums"]:
            prog.enums.setdefault(e["qn"], e)
        for g in d["globals"]:
            g["types"] = types
            prog.globals.setdefault(g["qn"], g)
    import bindings
    bindings.attach(prog)
    return prog


def walk(n):
    """All AST dict nodes below (and including) n, pre-order."""
    stack = [n]
    while stack:
        x = stack.pop()
        if isinstance(x, dict):
            if "k" in x:
                yield x
            stack.extend(reversed([v for v in x.values() if isinstance(v, (dict, list))]))
        elif isinstance(x, list):
            stack.extend(reversed(x))


if __name__ == "__main__":
    p = load()
    print(len(p.units), "units", len(p.fns), "functions", len(p.records), "records", len(p.enums), "enums")
