P = "src/vmecpp/"
import os
STUB = open("/verif/tools/seedlib/py/native_stub.py").read()
DEMO = '''
#!/bin/bash
# runs a small program against the Python package in the current directory
D=$(cd "$(dirname "$0")" && pwd)
T=$(mktemp -d)
trap 'rm -rf "$T"' EXIT
PYTHONDONTWRITEBYTECODE=1 OMP_NUM_THREADS=1 JAX_PLATFORMS=cpu MPLBACKEND=Agg MPLCONFIGDIR="$T" PYTHONPATH="$D" /opt/vp/venv/bin/python "$D/demo.py" "$T"
'''
SEEDS = []
def add(id, prop, needs, breaks, edits, prog):
    SEEDS.append(dict(id=id, property=prop, needs=needs, breaks=breaks, edits=edits, demo=DEMO, files={"native_stub.py": STUB, "demo.py": prog}))

add("c13_small_coeff", "C13", "a boundary coefficient that is nonzero but tiny (below 1e-14)", "the JSON form of an input drops tiny nonzero boundary coefficients",
 [(P+"_util.py", "m_indices, col_indices = np.nonzero(coefficients)", "m_indices, col_indices = np.nonzero(\n        np.abs(coefficients) > 1e-14 * np.max(np.abs(coefficients))\n    )")],
 '''
import native_stub, numpy as np
from vmecpp import _util
c = np.zeros((3, 5)); c[0, 2] = 6.0; c[1, 3] = 1e-16; c[2, 0] = -3e-300
back = _util.sparse_to_dense_coefficients(_util.dense_to_sparse_coefficients(c), 3, 2)
assert np.array_equal(back, c), back
''')
add("c04_indata_digits", "C04", "a boundary coefficient that needs more than 13 significant digits", "converting JSON to INDATA rounds the boundary coefficients",
 [(P+"_util.py", 'out += f"  {varname}({n}, {m}) = {value:.20e}\\n"', 'out += f"  {varname}({n}, {m}) = {value:.12e}\\n"')],
 '''
import native_stub, re
from vmecpp import _util
v = 1.0 / 3.0
text = _util.vmecpp_json_to_indata({"lasym": False, "nfp": 1, "mpol": 2, "ntor": 0, "rbc": [{"m": 1, "n": 0, "value": v}], "zbs": []})
x = re.search(r"rbc\\(0, *1\\) *= *(\\S+)", text, re.I).group(1)
assert float(x) == v, x
''')
add("c11_cwd_error", "C11", "an exception inside the block that runs in the other directory", "the process stays in the other (possibly deleted) directory after an error",
 [(P+"_util.py", "    try:\n        os.chdir(path)\n        yield\n    finally:\n        os.chdir(origin)", "    os.chdir(path)\n    try:\n        yield\n    except OSError:\n        os.chdir(origin)\n        raise\n    else:\n        os.chdir(origin)")],
 '''
import native_stub, os, sys
from pathlib import Path
from vmecpp import _util
here = os.getcwd()
for err in (OSError, ValueError, KeyboardInterrupt):
    try:
        with _util.change_working_directory_to(Path(sys.argv[1])):
            raise err("x")
    except BaseException:
        pass
    assert os.getcwd() == here, err
''')
add("c18_odd_modes", "C18", "modes with odd m of at least 3 and a change of the radial resolution", "odd modes above m=1 are interpolated as if they were even",
 [(P+"_continuation.py", "odd_m = int(xm[i]) % 2 == 1", "odd_m = int(xm[i]) == 1")],
 '''
import native_stub, numpy as np
from vmecpp import _continuation as c
s = np.sqrt(np.linspace(0, 1, 5))
xm = np.arange(6)
vals = np.array([s if m % 2 else np.ones(5) for m in xm])
out = c._radial_interpolate_geometry(vals, xm, 9)
r = np.sqrt(np.linspace(0, 1, 9))
vals3 = np.array([s * (1 + s**2) if m % 2 else np.ones(5) for m in xm])
o3 = c._radial_interpolate_geometry(vals3, xm, 9)
assert np.allclose(o3[1], o3[3]) and np.allclose(o3[1], o3[5])
''')
add("c26_no_retry", "C26", "a run that fails, followed by another evaluation without a change", "a failed run is not tried again: the next evaluation silently uses the previous result",
 [(P+"simsopt_compat.py", "        self.iter += 1\n        self.set_indata()  # update self.indata if needed\n", "        self.iter += 1\n        self.need_to_run_code = False\n        self.set_indata()  # update self.indata if needed\n"),
  (P+"simsopt_compat.py", '        logger.debug("Done loading VMEC++ output.")\n        self.need_to_run_code = False\n', '        logger.debug("Done loading VMEC++ output.")\n')],
 '''
import native_stub, types
import vmecpp
from vmecpp import simsopt_compat as sc
calls = []
def fake(*a, **k):
    calls.append(1)
    raise RuntimeError("no convergence")
vmecpp.run = fake
sc.vmecpp.run = fake
class V:
    run = sc.Vmec.run
    _set_grid = sc.Vmec._set_grid
v = V()
v.need_to_run_code = True; v.runnable = True; v.iter = 0; v.verbose = False; v.wout = None
v._should_save_outputs = False; v.indata = types.SimpleNamespace(); v.set_indata = lambda: None
for i in range(2):
    try:
        v.run()
    except sc.ObjectiveFailure:
        continue
    raise SystemExit("second evaluation did not run: %d calls" % len(calls))
assert len(calls) == 2
''')
add("c16_backup_interval", "C16", "a residual history that decreases for exactly ten iterations after a restart", "the Python loop takes the checkpoint one iteration earlier than the native solver",
 [(P+"_iteration.py", "elif fsq1 <= res0 and (iter2 - iter1) > 10:", "elif fsq1 <= res0 and (iter2 - iter1) >= 10:")],
 '''
import native_stub
from vmecpp import _iteration as it
class Model:
    iteration_style = it._VMEC_8_52
    ftolv = 1e-30; niterv = 14; delt = 0.9; mhd_energy = 1.0
    def __init__(self): self.saved = []; self.n = 0
    def evaluate(self, i1, i2, **k):
        self.n = i2
        r = 2.0 ** -i2
        self.fsqr = self.fsqz = self.fsql = r
        self.fsqr1 = self.fsqz1 = self.fsql1 = r
        self.restart_reason = type("R", (), {"__int__": lambda s: 1, "__index__": lambda s: 1, "__eq__": lambda s, o: False, "__hash__": lambda s: 1})()
    def save_backup(self): self.saved.append(self.n)
    def restore_backup(self): pass
    def __getattr__(self, n):
        if n.startswith("__"): raise AttributeError(n)
        return lambda *a, **k: None
m = Model()
it.solve_equilibrium(m)
assert [x for x in m.saved if x > 1] == [12, 13, 14], m.saved
''')
add("c03_asym_names", "C03", "an asymmetric (lasym) result handed back to the native code, as for a restart", "two asymmetric field arrays are exchanged when a result is converted to its native form",
 [(P+"__init__.py", '''                value = getattr(self, field)
                if value is not None:
                    setattr(cpp_wout, field, value)
''', '''                value = getattr(self, field.replace("bsubv", "bsupv"))
                if value is not None:
                    setattr(cpp_wout, field, value)
''')],
 '''
import native_stub, vmecpp
W = vmecpp.VmecWOut
for lasym in (False, True):
    w = W.model_construct(**{f: "value of " + f for f in W.model_fields})
    w.lasym = lasym
    c = w._to_cpp_wout()
    for f in W.model_fields:
        if f == "lasym" or (not lasym and f in W._CPP_WOUT_SPECIAL_HANDLING):
            continue
        assert getattr(c, f) == "value of " + f, (f, getattr(c, f))
''')
add("c18_table_mutated", "C18", "a multi-resolution run with a restart state", "a multi-resolution run restarts every step from the caller's restart state instead of the previous step",
 [], "")
SEEDS.pop()
