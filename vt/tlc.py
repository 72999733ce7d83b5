"""Running TLC: exhaustive models, script generation (transition cover / simulation) and trace validation."""
import os, re, subprocess, tempfile, json, shutil, time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SPEC = os.path.join(VERIF, "spec")
JAR = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"


class TlcError(Exception):
    """TLC could not do its job (parse error, out of memory, timeout)."""


class Result:
    def __init__(self):
        self.ok = False; self.out = ""; self.printed = []; self.generated = 0; self.distinct = 0; self.depth = 0
        self.violated = None; self.wall = 0.0; self.coverage = {}; self.error = None


def run(module, cfg, env=None, workers=1, heap="3g", timeout=600, args=(), want_coverage=False):
    """Run TLC on spec/<module>.tla with spec/<cfg>.cfg. ok: no violation of any kind."""
    meta = tempfile.mkdtemp(prefix="tlc", dir=_tmp())
    e = dict(os.environ); e.update(env or {})
    cmd = ["java", "-XX:+UseSerialGC" if workers == 1 else "-XX:+UseParallelGC", "-Xmx" + heap, "-Xss64m",
           "-Djava.io.tmpdir=" + meta, "-Dtlc2.TLC.stopAfter=%d" % timeout, "-cp", JAR, "tlc2.TLC", "-noGenerateSpecTE", "-nowarning",
           "-metadir", meta, "-workers", str(workers), "-config", cfg + ".cfg"]
    if want_coverage:
        cmd += ["-coverage", "1"]
    cmd += list(args) + [module + ".tla"]
    t = time.time()
    try:
        p = subprocess.run(cmd, cwd=SPEC, env=e, capture_output=True, text=True, timeout=timeout + 30)
    except subprocess.TimeoutExpired as x:
        raise TlcError("TLC timed out on %s/%s" % (module, cfg))
    finally:
        shutil.rmtree(meta, ignore_errors=True)
    r = Result(); r.wall = time.time() - t; r.out = p.stdout; r.rc = p.returncode
    for line in p.stdout.splitlines():
        if line.startswith('"'):
            try:
                r.printed.append(json.loads(line))
            except Exception:
                r.printed.append(line)
    m = re.findall(r"(\d+) states generated, (\d+) distinct states found", p.stdout)
    if m:
        r.generated, r.distinct = int(m[-1][0]), int(m[-1][1])
    m = re.findall(r"depth of the complete state graph search is (\d+)", p.stdout)
    if m:
        r.depth = int(m[-1])
    r.ok = p.returncode == 0
    if not r.ok:
        m = re.search(r"(Invariant \S+ is violated|Action property \S+ is violated|Temporal properties were violated|"
                      r"POSTCONDITION|Postcondition|Deadlock reached|Assumption .* is false)", p.stdout)
        if m:
            r.violated = m.group(1)
        else:
            m = re.search(r"Error: (.*(?:\n.*){0,12})", p.stdout)
            r.error = m.group(1) if m else (p.stdout[-2000:] + p.stderr[-2000:])
    if want_coverage:
        for m in re.finditer(r"^<(\w+) line \d+, col \d+ to line \d+, col \d+ of module (\w+)>: (\d+):(\d+)", p.stdout, re.M):
            r.coverage[m.group(1)] = (int(m.group(3)), int(m.group(4)))
    return r


def _tmp():
    d = os.path.join(VERIF, "build", "tmp")
    os.makedirs(d, exist_ok=True)
    return d


def model(module, cfg, **kw):
    """Exhaustive (or simulated) model run that must succeed."""
    r = run(module, cfg, **kw)
    if not r.ok:
        raise TlcError("model %s/%s does not satisfy its own properties or failed:\n%s" %
                       (module, cfg, (r.violated or "") + " " + (r.error or "") + r.out[-3000:]))
    return r


def validate(module, cfg, trace_path, env=None, heap="3g", timeout=800):
    """Validate one ndjson trace. Returns (accepted, info) with info = first mismatch as reported by the spec."""
    e = dict(env or {}); e["TRACE"] = trace_path
    r = run(module, cfg, env=e, workers=1, heap=heap, timeout=timeout)
    info = None
    for x in r.printed:
        if isinstance(x, str) and x.startswith("{"):
            try:
                d = json.loads(x)
            except Exception:
                continue
            if isinstance(d, dict) and "mismatch" in d:
                info = d
                break
    if r.ok:
        return True, None, r
    if r.violated is None and info is None:
        # evaluation error: remember where
        info = {"mismatch": -1, "error": r.error}
    elif info is None:
        info = {"mismatch": -1, "violated": r.violated, "tail": r.out[-3000:]}
    return False, info, r
