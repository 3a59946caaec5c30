"""Development aid: apply behaviour-preserving edits and planted bugs to a scratch
copy of the C++/Python sources and report what the reference comparison says.
Not part of any registered check."""
import os, shutil, subprocess, sys, importlib.util
HERE = os.path.dirname(os.path.abspath(__file__))
SCR = os.environ.get("SCR", "/tmp/selftest_repo")

def prep():
    subprocess.run(["rsync", "-a", "--delete", "--exclude", ".git", "--exclude", "build*", "--exclude", "third_party/*/build", "/repo/src/", SCR + "/src/"], check=True)

def apply(edits):
    for f, old, new in edits:
        p = os.path.join(SCR, "src/vmecpp", f)
        s = open(p).read()
        assert s.count(old) >= 1, (f, old[:60], s.count(old))
        s = s.replace(old, new, 1)
        open(p, "w").write(s)

def main():
    spec = importlib.util.spec_from_file_location("edits", os.path.join(HERE, sys.argv[1]))
    m = importlib.util.module_from_spec(spec); spec.loader.exec_module(m)
    sel = sys.argv[2:]
    for name, edits in m.EDITS.items():
        if sel and not any(s in name for s in sel):
            continue
        prep(); apply(edits)
        cmd = m.CMD.get(name, m.CMD["*"])
        r = subprocess.run(cmd, shell=True, cwd="/verif", env=dict(os.environ, VERIF_REPO=SCR), capture_output=True, text=True)
        print("==", name); print((r.stdout + r.stderr)[:int(os.environ.get("W", "1500"))])
main()
