"""show.py PATTERN [width]: print stored effect summaries of matching functions."""
import sys, os
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
import spec, refcheck
ref = refcheck.reference()
w = int(sys.argv[2]) if len(sys.argv) > 2 else 300
for k, v in sorted(ref["functions"].items()):
    if sys.argv[1] in k:
        s = spec.decode(v["s"])
        print("==", k, v["file"], "unresolved", v["un"])
        for l, us in sorted(s["locs"].items()):
            for u in us: print("  ", l, "::", spec.render(u)[:w])
        for e in s["events"]: print("   EV", spec.render_ev(e)[:w])
