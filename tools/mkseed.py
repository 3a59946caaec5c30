"""mkseed.py SPEC.py [names]: create /verif/seeded/<name> from edit specs (dev aid, not used by any check).
SPEC defines SEEDS = [dict(id=, property=, needs=, breaks=, edits=[(file, old, new)], files={name: text}, cpp=bool, demo=text)]."""
import sys, os, json, subprocess, shutil, runpy
os.environ["GIT_LFS_SKIP_SMUDGE"] = "1"
spec = runpy.run_path(sys.argv[1])
names = sys.argv[2:]
W = "/tmp/seedwork"
if not os.path.isdir(W):
    subprocess.check_call(["git", "clone", "-q", "/repo", W])
def git(*a, **k):
    return subprocess.run(["git", "-C", W, *a], check=True, capture_output=True, text=True, **k).stdout
git("fetch", "-q", "origin"); git("reset", "-q", "--hard", subprocess.check_output(["git", "-C", "/repo", "rev-parse", "HEAD"], text=True).strip())
lib = os.path.join(os.path.dirname(os.path.abspath(__file__)), "seedlib")
def demo(d):
    r = subprocess.run(["bash", os.path.join(d, "demo.sh")], cwd=W, capture_output=True, text=True, timeout=300)
    return r.returncode, (r.stdout + r.stderr)[-600:]
for s in spec["SEEDS"]:
    if names and s["id"] not in names: continue
    d = "/verif/seeded/" + s["id"]
    shutil.rmtree(d, ignore_errors=True); os.makedirs(d)
    for fn, t in s.get("files", {}).items():
        open(os.path.join(d, fn), "w").write(t.lstrip("\n"))
    if s.get("cpp"):
        shutil.copytree(lib + "/inc", d + "/inc")
    open(d + "/demo.sh", "w").write(s["demo"].lstrip("\n"))
    json.dump({"property": s["property"], "needs": s["needs"], "what_it_breaks": s["breaks"]}, open(d + "/meta.json", "w"), indent=1)
    a = demo(d)
    for f, old, new in s["edits"]:
        p = os.path.join(W, f); t = open(p).read()
        assert t.count(old) == 1, (s["id"], f, t.count(old))
        open(p, "w").write(t.replace(old, new))
    diff = git("diff"); open(d + "/patch.diff", "w").write(diff)
    b = demo(d)
    chk = subprocess.run([sys.executable, "/verif/check.py", s["property"], "quick"], cwd="/verif", capture_output=True, text=True, env=dict(os.environ, VERIF_REPO=W))
    git("checkout", "-q", "--", ".")
    print("%-24s clean=%s patched=%s check=%s %s" % (s["id"], a[0], b[0], chk.returncode, "OK" if a[0] == 0 and b[0] != 0 else "BAD DEMO\n" + a[1] + "\n--\n" + b[1]))
    if chk.returncode != 1: print("   MISSED", chk.stdout[-300:], chk.stderr[-500:])
