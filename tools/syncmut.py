"""Removes, one at a time, each OpenMP synchronisation directive and reports which removals lib/sync.py notices."""
import os, re, shutil, subprocess, sys
W = "/tmp/syncmut"
env = dict(os.environ, VERIF_REPO=W, VERIF_CACHE="/tmp/syncmut_cache")
os.environ.update(VERIF_REPO=W, VERIF_CACHE="/tmp/syncmut_cache")
if not os.path.exists(W):
    shutil.copytree("/repo", W, symlinks=True, ignore=shutil.ignore_patterns(".git", "build*"))
pat = sys.argv[1] if len(sys.argv) > 1 else "."
root = os.path.join(W, "src/vmecpp/cpp/vmecpp")
n = ok = 0
for d, _, fs in sorted(os.walk(root)):
    for f in sorted(fs):
        p = os.path.join(d, f)
        if not f.endswith((".cc", ".h")) or "_test" in f or not re.search(pat, p):
            continue
        src = open(p).read()
        L = src.split("\n")
        for i, l in enumerate(L):
            m = re.match(r"\s*#pragma omp (barrier|single|critical|atomic write|master|single nowait)\b", l)
            if not m:
                continue
            for kind, new in [("drop", "")] + ([("nowait", l + " nowait")] if l.strip() == "#pragma omp single" else []):
                M = list(L)
                M[i] = new
                open(p, "w").write("\n".join(M))
                r = subprocess.run([sys.executable, "/verif/lib/sync.py"], env=env, capture_output=True, text=True)
                out = r.stdout.strip().split("\n")[1:]
                n += 1
                ok += bool(out)
                print(("caught " if out else "MISSED ") + kind, f, i + 1, m.group(1), (out[0][:110] if out else "") + (r.stderr[-200:] if r.returncode else ""), flush=True)
        open(p, "w").write(src)
print(ok, "of", n)
