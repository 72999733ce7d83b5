#!/usr/bin/env python3
"""Creates /verif/seeded/<id>/ from an edit: mkbug.py SPECFILE; the spec file is python defining BUGS = [dict(id, prop, needs, breaks, edits=[(file, old, new)], demo=<c++ main body or full>, libs)]."""
import sys, os, subprocess, json, difflib
V = "/verif/seeded"; R = "/repo"
DEMO = '''#!/bin/bash
# exit 0 when the property holds, nonzero when it is broken
here=$(cd "$(dirname "$0")" && pwd)
tmp=$(mktemp -d)
inc=""; for p in core io projection traffic_rules routing matching validation; do inc="$inc -I/repo/lanelet2_$p/include"; done
g++ -std=c++17 -O1 -w %(flags)s $inc -I/usr/include/eigen3 "$here/demo.cpp" -o "$tmp/demo" -L/repo/_build/lib %(libs)s -Wl,-rpath,/repo/_build/lib -lpthread -lboost_filesystem -lboost_system || exit 3
cd "$tmp"
timeout 120 "$tmp/demo"; rc=$?
cd /; exit $rc
'''
ns = {}
exec(open(sys.argv[1]).read(), ns)
only = set(sys.argv[2:])
for b in ns["BUGS"]:
    if only and b["id"] not in only: continue
    d = f"{V}/{b['id']}"; os.makedirs(d, exist_ok=True)
    files = {}
    for f, old, new in b["edits"]:
        s = files.get(f) or (open(f"{R}/{f}").read(),) * 2
        assert s[1].count(old) == 1, (b["id"], f, s[1].count(old), old)
        files[f] = (s[0], s[1].replace(old, new))
    out = ""
    for f, (a, n) in files.items():
        out += f"diff --git a/{f} b/{f}\n"
        out += "".join(difflib.unified_diff(a.splitlines(True), n.splitlines(True), "a/" + f, "b/" + f))
    open(d + "/patch.diff", "w").write(out)
    r = subprocess.run(["git", "-C", R, "apply", "--check", d + "/patch.diff"], capture_output=True, text=True)
    assert r.returncode == 0, (b["id"], r.stderr)
    open(d + "/demo.cpp", "w").write(b["demo"].lstrip())
    libs = " ".join("-llanelet2_" + l for l in b.get("libs", ["core"])) + " " + b.get("xlibs", "")
    open(d + "/demo.sh", "w").write(DEMO % {"libs": libs, "flags": b.get("flags", "")})
    os.chmod(d + "/demo.sh", 0o755)
    json.dump({"property": b["prop"], "needs": b["needs"], "what_it_breaks": b["breaks"]}, open(d + "/meta.json", "w"), indent=1)
    print(b["id"])
