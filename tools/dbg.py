"""tools/dbg.py C14 REPLAY: run a replay, print the full observation and expectation of the rejected line"""
import sys, os, json, importlib
sys.path.insert(0, os.path.join(os.path.dirname(__file__), ".."))
from vt import flow, build as B
c = importlib.import_module("vt.props." + sys.argv[1].lower()).CHECK
r = flow.Runner(c, "quick", 1)
r.exe = B.build(c.driver, c.libs, c.flags, c.link, c.variant, c.skip)
s = [l.strip() for l in open(sys.argv[2]) if not l.startswith("#") and l.strip()]
tp, n, crash = r.drive([s], "dbg")
ok, at, info, tr, recs = r.validate_file(tp)
print("ok", ok, "crash", crash)
if not ok:
    rec = json.loads(recs[at])
    print(rec["op"], rec["a"])
    exp = (info or {}).get("expected") or (info or {}).get("want") or info
    if isinstance(exp, dict) and isinstance(rec["o"], dict):
        for k in sorted(set(exp) | set(rec["o"])):
            a, b = exp.get(k), rec["o"].get(k)
            if a != b:
                print(k, "\n  want", a, "\n  have", b)
                if isinstance(a, list) and isinstance(b, list):
                    print("  missing", [x for x in a if x not in b], "extra", [x for x in b if x not in a])
    else:
        print(exp); print(rec["o"])
    if "-v" in sys.argv: print(tr.out[-3000:])
