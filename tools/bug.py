#!/usr/bin/env python3
"""Confirms a planted bug and runs a check against it, in a scratch copy mounted over /repo in a private namespace.

    tools/bug.py confirm ID...      demo passes, patch applies, builds, stable tests pass, demo fails
    tools/bug.py check ID... [tier] the check of its property (run from a copy of /verif) exits 1 with a VIOLATION line
    tools/bug.py both ID...
"""
import sys, os, subprocess, json, shutil
V = "/verif"; S = "/tmp/bugwork"

def sh(cmd, **k):
    return subprocess.run(cmd, shell=True, capture_output=True, text=True, **k)

def prepare(slot):
    w = f"{S}/{slot}"
    os.makedirs(w, exist_ok=True)
    r = sh(f"rsync -a --delete /repo/ {w}/repo/ && rsync -a --delete --exclude build/work --exclude evidence --exclude .git --exclude seeded {V}/ {w}/verif/ && mkdir -p {w}/verif/evidence {w}/verif/build/work")
    assert r.returncode == 0, r.stderr
    return w

def ns(w, cmd, timeout=1800):
    return subprocess.run(["unshare", "-Urm", "bash", "-c",
        f"mount --bind {w}/repo /repo && mount --bind {w}/verif /verif && cd /repo && {cmd}"],
        capture_output=True, text=True, timeout=timeout)

def confirm(b, w):
    d = f"{V}/seeded/{b}"; dd = f"{w}/demo"
    shutil.rmtree(dd, ignore_errors=True); shutil.copytree(d, dd)
    r = sh(f"git -C {w}/repo checkout -q -- . && git -C {w}/repo status --short")
    r = ns(w, f"bash /opt/vp/build.sh >/tmp/bugwork/{b}.b0 2>&1; bash {dd}/demo.sh")
    if r.returncode != 0:
        print(b, "DEMO FAILS ON UNCHANGED TREE\n", r.stdout[-1500:], r.stderr[-3000:]); return False
    r = sh(f"git -C {w}/repo apply {d}/patch.diff")
    if r.returncode: print(b, "PATCH DOES NOT APPLY", r.stderr); return False
    r = ns(w, f"bash /opt/vp/test.sh /tmp/bugwork/{b}.json >/tmp/bugwork/{b}.b1 2>&1")
    t = json.load(open(f"/tmp/bugwork/{b}.json"))
    miss = set(json.load(open("/opt/vp/BASELINE.json"))["stable"]) - set(t["passed"])
    if miss: print(b, "TESTS FAIL:", len(miss), sorted(miss)[:6], open(f"/tmp/bugwork/{b}.b1").read()[-800:] if len(miss) > 300 else ""); return False
    r = ns(w, f"timeout 300 bash {dd}/demo.sh")
    if r.returncode == 0: print(b, "DEMO PASSES WITH THE PATCH", r.stdout[-1500:]); return False
    print(b, "confirmed; demo says:", (r.stdout + r.stderr).strip()[-300:])
    return True

def check(b, w, tier="quick"):
    d = f"{V}/seeded/{b}"
    p = json.load(open(d + "/meta.json"))["property"]
    sh(f"git -C {w}/repo checkout -q -- .")
    r = sh(f"git -C {w}/repo apply {d}/patch.diff")
    if r.returncode: print(b, "PATCH DOES NOT APPLY", r.stderr); return False
    r = ns(w, f"cd /verif && VERIF_SEED=1 VERIF_TIER={tier} timeout 900 ./check {p} {tier}")
    ok = r.returncode == 1 and f"VIOLATION property={p}" in r.stdout
    print(b, "CAUGHT" if ok else "MISSED rc=%d" % r.returncode, (r.stdout.strip().splitlines() or [""])[-1][:300] if ok else (r.stdout + r.stderr)[-1500:])
    return ok

if __name__ == "__main__":
    mode, ids = sys.argv[1], sys.argv[2:]
    slot = os.environ.get("SLOT", "0")
    w = prepare(slot)
    for b in ids:
        good = True
        if mode in ("confirm", "both"): good = confirm(b, w)
        if mode in ("check", "both") and good: check(b, w)
        sh(f"git -C {w}/repo checkout -q -- .")
        sys.stdout.flush()
