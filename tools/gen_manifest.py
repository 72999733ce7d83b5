"""Writes MANIFEST.json from the properties and the checks that exist."""
import json, os, glob, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V)
import importlib
props = [json.loads(l) for l in open(V + "/properties.jsonl")]
have = {os.path.basename(f)[:-3].upper() for f in glob.glob(V + "/vt/props/c*.py")}
NA = {}
checks, na = [], []
for p in props:
    i = p["id"]
    if i in have:
        c = importlib.import_module("vt.props." + i.lower()).CHECK
        checks.append({
            "property": i, "quick_cmd": "./check %s quick" % i, "thorough_cmd": "./check %s thorough" % i,
            "technique": getattr(c, "technique", "TLA+ specification model checked with TLC; recorded executions of the real code validated against it"),
            "level": c.level,
            "level_note": getattr(c, "level_note", "")})
    else:
        na.append({"property": i, "reason": NA.get(i, "specification and conformance check not built yet")})
m = {"version": 1, "setup_cmd": "python3 -m vt.setup", "checks": checks, "not_applicable": na,
     "notes": "TLA+ specifications in spec/, drivers for the real code in harness/, the machinery in vt/. See DESIGN.md."}
hooks = None
json.dump(m, open(V + "/MANIFEST.json", "w"), indent=1)
print(len(checks), "checks", len(na), "open")
