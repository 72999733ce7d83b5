"""The flow every check follows: build the real code, check the specification, generate scripts from it, run them on the
real code, validate every recorded trace against the specification, confirm rejections, write evidence."""
import os, sys, json, time, random, subprocess, shutil, copy, re
from concurrent.futures import ThreadPoolExecutor
from . import build as B, tlc as T

VERIF = B.VERIF
NCPU = os.cpu_count() or 4


class ToolError(Exception):
    pass


class Check:
    id = None                # property
    driver = None            # harness/<driver>.cpp
    libs = ["core"]
    flags = ()
    link = ()
    variant = "std"
    skip = ()
    trace_module = None      # spec/<trace_module>.tla + .cfg
    trace_cfg = None
    level = "model_checking"
    driver_timeout = 240
    max_shard_lines = 200000
    selftests = 6
    extra_builds = ()        # further builds of the driver: (variant, flags, link); their paths are in VT_EXE_<VARIANT>
    env = {}
    heap = "3g"

    # ---- to override
    def models(self, tier):
        """[(module, cfg, kwargs)] exhaustive design models"""
        return []

    def scripts(self, ctx):
        """list of scripts; every script is a list of lines, the first one starting with 'reset'"""
        raise NotImplementedError

    def assumptions(self):
        return []

    def corruptible(self, rec):
        return True

    def loose(self, rec, path):
        """values of an observation that may be different without being wrong (not used to test the binding)"""
        return False

    def classify(self, rec):
        """for the evidence: histogram key of a trace line"""
        return rec["op"]

    def known_key(self, rec, info):
        return None

    def probes(self):
        """for findings that are recorded, not repaired: [(key, script)]. The ordinary scripts run with KF_<key> in the environment of
        the specification, which then leaves open exactly what the finding is about; the probe is judged without it"""
        return []


class Ctx:
    def __init__(self, check, tier, seed):
        self.check, self.tier, self.seed = check, tier, seed
        self.rnd = random.Random("%s-%d" % (check.id, seed))
        self.models = []
        self.printed = {}

    @property
    def quick(self):
        return self.tier == "quick"


def lines_of(hist):
    """script lines from a history printed by the model: sequence of {op, a}"""
    return [" ".join([h["op"]] + [str(x) if x != "" else "_" for x in h.get("a", [])]) for h in hist]


def hists(printed):
    r = []
    for x in printed:
        if isinstance(x, str) and x.startswith("["):
            try:
                r.append(json.loads(x))
            except Exception:
                pass
    return r


def prefix_free(scripts):
    """drop scripts that are a proper prefix of another one (the longer one covers them)"""
    ts = sorted(set(tuple(s) for s in scripts))
    out = []
    for i, s in enumerate(ts):
        if i + 1 < len(ts) and ts[i + 1][:len(s)] == s:
            continue
        out.append(list(s))
    return out


class Runner:
    def __init__(self, check, tier, seed):
        self.c, self.tier, self.seed = check, tier, seed
        self.ctx = Ctx(check, tier, seed)
        self.t0 = time.time()
        self.work = os.path.join(VERIF, "build", "work", check.id)
        shutil.rmtree(self.work, ignore_errors=True)
        os.makedirs(self.work)
        self.exe, self.exes = None, {}
        self.violations = []
        self.known_seen = []
        self.stats = {}

    # ------------------------------------------------------------------ driver
    def drive(self, scripts, name):
        """run scripts on the real code; returns list of trace records (python objects) and the path of the trace"""
        sp = os.path.join(self.work, name + ".script"); tp = os.path.join(self.work, name + ".ndjson")
        lines = [l for s in scripts for l in s]
        with open(sp, "w") as f:
            f.write("\n".join(lines) + "\n")
        if os.path.exists(tp):
            os.remove(tp)
        crash = None
        e = dict(os.environ); e.update(self.c.env); e.update(self.exes)
        e.setdefault("ASAN_OPTIONS", "detect_leaks=0:abort_on_error=1:halt_on_error=1")
        e["VT_SCRATCH"] = self.work
        try:
            p = subprocess.run([self.exe, sp, tp], env=e, capture_output=True, text=True, errors="replace",
                               timeout=self.c.driver_timeout, cwd=self.work)
            if p.returncode != 0:
                crash = "exit %d: %s" % (p.returncode, p.stderr[-800:].replace("\n", " | "))
        except subprocess.TimeoutExpired:
            crash = "timeout"
        n = 0
        if os.path.exists(tp):
            with open(tp, errors="replace") as f:
                data = f.read()
            good = data[:data.rfind("\n") + 1] if "\n" in data else ""
            n = good.count("\n")
            if good != data:
                with open(tp, "w") as f:
                    f.write(good)
        elif crash is None:
            raise ToolError("driver wrote no trace")
        if os.path.exists(tp):
            # memory of a broken program may be anything: a line that cannot be read is a crash of its operation
            with open(tp, errors="replace") as f:
                got = f.read().splitlines(True)
            for k, q in enumerate(got):
                try:
                    json.loads(q)
                except ValueError:
                    crash, n = "unreadable observation: %s" % q[:300].replace("\n", " "), k
                    with open(tp, "w") as f:
                        f.writelines(got[:k])
                    break
        if crash is not None:
            if n >= len(lines):
                # died after the last line (static destruction): attribute to the last operation
                n = len(lines) - 1
                with open(tp) as f:
                    keep = f.read().splitlines(True)[:n]
                with open(tp, "w") as f:
                    f.writelines(keep)
            w = lines[n].split()
            with open(tp, "a") as f:
                f.write(json.dumps({"op": w[0], "a": [int(x) if re.fullmatch(r"-?\d{1,9}", x) else x for x in w[1:]],
                                    "o": {"crash": crash}}) + "\n")
        elif n != len(lines):
            raise ToolError("driver wrote %d lines for %d operations" % (n, len(lines)))
        return tp, n, crash

    def validate_file(self, tp):
        with open(tp) as f:
            recs = f.read().splitlines()
        ok, info, r = T.validate(self.c.trace_module, self.c.trace_cfg or self.c.trace_module, tp, env=self.c.env,
                                 heap=self.c.heap)
        self.stats["trace_states"] = self.stats.get("trace_states", 0) + r.distinct
        at = None
        if not ok and info and info.get("error") and (r.distinct == 0 or re.search(
                r"OutOfMemory|StackOverflow|Parsing or semantic|could not|Could not parse|GC overhead|FileNotFound", r.out)):
            raise T.TlcError("trace validation failed: %s" % r.out[-3000:])
        if not ok:
            if info and info.get("mismatch", -1) > 0:
                at = info["mismatch"] - 1
            else:
                # no mismatch was printed (evaluation error, invariant): number of matched lines = states reached
                at = min(len(recs) - 1, max(0, r.distinct - 1))
                m = re.findall(r"/\\ l = (\d+)", r.out)
                if m:
                    at = min(len(recs) - 1, int(m[-1]) - 1)
        return ok, at, info, r, recs

    # ------------------------------------------------------------------ rejection handling
    def segment(self, scripts, at):
        """script containing trace line index `at` (0 based) and the position inside of it"""
        n = 0
        for s in scripts:
            if at < n + len(s):
                return s, at - n
            n += len(s)
        raise ToolError("mismatch position outside of the scripts")

    def confirm(self, scripts, at, info, tag):
        """re-run the failing script alone; returns (rec, info, script) when the rejection repeats"""
        s, pos = self.segment(scripts, at)
        s = s[:pos + 1] if pos + 1 >= 1 else s
        tp, n, crash = self.drive([s], "confirm-" + tag)
        ok, at2, info2, r, recs = self.validate_file(tp)
        if not ok:
            rec = json.loads(recs[at2])
            return rec, info2, (self.minimise(s, tag, (rec["op"], "crash" in rec["o"] if isinstance(rec["o"], dict) else False)) if not self.violations else s), crash
        # depends on earlier scripts in the same process: repeat the whole prefix
        k = 0
        pre = []
        for q in scripts:
            pre.append(q)
            k += len(q)
            if k > at:
                break
        tp, n, crash = self.drive(pre, "confirm2-" + tag)
        ok, at3, info3, r, recs = self.validate_file(tp)
        if not ok:
            rec = json.loads(recs[at3])
            return rec, info3, [l for q in pre for l in q], crash
        return None

    def minimise(self, script, tag, want0):
        """drop operations while the rejection persists (best effort, bounded)"""
        best = list(script)
        kind = lambda rec: (rec["op"], "crash" in rec["o"] if isinstance(rec["o"], dict) else False)
        t_end = time.time() + 25
        i = len(best) - 2
        while i >= 1 and time.time() < t_end:
            cand = best[:i] + best[i + 1:]
            try:
                tp, n, crash = self.drive([cand], "min-" + tag)
                ok, at, info, r, recs = self.validate_file(tp)
                if not ok and not (info and info.get("error")) and kind(json.loads(recs[at])) == want0:
                    best = cand[:at + 1]
                    i = min(i, len(best) - 1)
            except Exception:
                pass
            i -= 1
        return best

    def load_known(self):
        out = []
        p = os.path.join(VERIF, "known_findings.txt")
        if os.path.exists(p):
            for l in open(p):
                m = re.match(r"known: property=(\S+) key=(\S+) (.*)", l.strip())
                if m and m.group(1) == self.c.id:
                    out.append((m.group(2), m.group(3)))
        return out

    # ------------------------------------------------------------------ main
    def run(self):
        c = self.c
        phases = {}
        t = time.time()
        with ThreadPoolExecutor(max_workers=1) as bx:
            fb = bx.submit(B.build, c.driver, c.libs, c.flags, c.link, c.variant, c.skip)
            more = [(v, bx.submit(B.build, c.driver, c.libs, f, k, v, c.skip)) for v, f, k in c.extra_builds]
            # meanwhile: the design models
            for spec in c.models(self.tier):
                module, cfg, kw = spec
                r = T.model(module, cfg, **{"want_coverage": True, **kw})
                dead = [a for a, (n, m) in r.coverage.items() if m == 0 and a not in ("Init",)]
                self.ctx.models.append({"module": module, "cfg": cfg, "states": r.distinct, "transitions": r.generated,
                                        "depth": r.depth, "wall_s": round(r.wall, 1), "never_taken": dead})
                self.ctx.printed[cfg] = r.printed
                if dead and not kw.get("simulate"):
                    raise T.TlcError("actions never taken in %s/%s: %s" % (module, cfg, dead))
            self.exe = fb.result()
            self.exes = {"VT_EXE_" + v.upper(): f.result() for v, f in more}
        phases["build+models"] = round(time.time() - t, 1)
        t = time.time()
        scripts = c.scripts(self.ctx)
        for s in scripts:
            if not s or not s[0].startswith("reset"):
                raise ToolError("script does not start with reset")
        phases["generate"] = round(time.time() - t, 1)
        # shards of similar line counts, deterministic
        t = time.time()
        total = sum(len(s) for s in scripts)
        nsh = max(1, min(NCPU, total // 50 + 1)) if total <= c.max_shard_lines * NCPU else total // c.max_shard_lines + 1
        shards = [[] for _ in range(nsh)]
        load = [0] * nsh
        for s in scripts:
            i = load.index(min(load))
            shards[i].append(s); load[i] += len(s)
        shards = [s for s in shards if s]
        hist = {}
        known = self.load_known()
        for key, script in c.probes():
            kn = [k for k in known if k[0] == key]
            if not kn:
                continue                     # the specification leaves nothing open
            tp, n, crash = self.drive([script], "probe_" + key)
            if crash or not self.validate_file(tp)[0]:
                self.known_seen.append((key, kn[0][1]))
            c.env = dict(c.env, **{"KF_" + key: "1"})

        def one(i):
            tp, n, crash = self.drive(shards[i], "shard%d" % i)
            ok, at, info, r, recs = self.validate_file(tp)
            return i, tp, ok, at, info, r, recs

        with ThreadPoolExecutor(max_workers=NCPU) as ex:
            res = list(ex.map(one, range(len(shards))))
        phases["drive+validate"] = round(time.time() - t, 1)
        validated = 0
        lines_ok = 0
        samples = []
        accepted_files = []
        pending = list(res)
        rounds = 0
        while pending:
            i, tp, ok, at, info, r, recs = pending.pop(0)
            upto = len(recs) if ok else at
            lines_ok += upto
            validated += sum(1 for l in recs[:upto] if l.startswith('{"op":"reset"'))
            for l in recs[:upto]:
                try:
                    rec = json.loads(l)
                except Exception:
                    continue
                k = c.classify(rec)
                hist[k] = hist.get(k, 0) + 1
            if ok:
                accepted_files.append((i, tp, recs))
                continue
            if os.environ.get("VT_DEBUG"):
                print("rejected shard", i, "line", at, why(json.loads(recs[at]), info), file=sys.stderr)
            if len(self.violations) >= 3:
                continue
            conf = self.confirm(shards[i], at, info, "s%d" % i)
            if conf is None:
                raise ToolError("a rejection did not repeat: shard %d line %d %s %s" % (i, at, recs[at][:500], json.dumps(info)[:1500]))
            rec, info2, script, crash = conf
            key = c.known_key(rec, info2)
            kn = [k for k in known if key is not None and k[0] == key]
            if kn:
                self.known_seen.append((key, kn[0][1]))
                # continue with the remaining scripts of this shard
                rounds += 1
                s, pos = self.segment(shards[i], at)
                idx = shards[i].index(s)
                rest = shards[i][idx + 1:]
                if rest and rounds < 200:
                    shards[i] = rest
                    pending.append(one(i))
                continue
            rp = os.path.join(VERIF, "build", "replay", "%s-%d.txt" % (c.id, len(self.violations)))
            os.makedirs(os.path.dirname(rp), exist_ok=True)
            with open(rp, "w") as f:
                f.write("# property %s\n# script (build/bin/%s/%s SCRIPT TRACE)\n" % (c.id, c.variant, c.driver))
                f.write("\n".join(script) + "\n")
                f.write("# rejected observation: %s\n" % json.dumps(rec))
                f.write("# specification: %s\n" % json.dumps(info2)[:20000])
                if crash:
                    f.write("# crash: %s\n" % crash)
            self.violations.append((rp, rec, info2))
        if not self.violations:
            t = time.time()
            self.selftest(accepted_files)
            phases["selftest"] = round(time.time() - t, 1)
        rnd = random.Random(self.seed)
        for i, tp, recs in accepted_files[:3]:
            if recs:
                k = rnd.randrange(len(recs))
                samples.append([json.loads(x) for x in recs[max(0, k - 1):k + 2]])
        if not samples:
            samples = [json.loads(res[0][6][0])]
        self.evidence(total, validated, lines_ok, hist, samples, phases, len(scripts))

    def selftest(self, accepted):
        """the binding must be sharp: falsified observations have to be rejected"""
        c = self.c
        rnd = random.Random("self-%d" % self.seed)
        cases = []
        tries = 0
        accepted = sorted(accepted, key=lambda x: x[0])
        while len(cases) < c.selftests and tries < 4000 and accepted:
            tries += 1
            i, tp, recs = rnd.choice(accepted)
            k = rnd.randrange(len(recs))
            rec = json.loads(recs[k])
            leaves = []
            collect(rec["o"], (), leaves)
            if not leaves or not c.corruptible(rec):
                continue
            path = rnd.choice(leaves)
            if c.loose(rec, path):
                continue
            bad = copy.deepcopy(rec)
            mutate(bad["o"], path)
            a = k
            while a > 0 and not recs[a].startswith('{"op":"reset"'):
                a -= 1
            cases.append(recs[a:k] + [json.dumps(bad)])

        def one(j):
            p = os.path.join(self.work, "self%d.ndjson" % j)
            with open(p, "w") as f:
                f.write("\n".join(cases[j]) + "\n")
            ok, info, r = T.validate(c.trace_module, c.trace_cfg or c.trace_module, p, env=c.env)
            return ok
        with ThreadPoolExecutor(max_workers=NCPU) as ex:
            oks = list(ex.map(one, range(len(cases))))
        self.stats["selftest_corruptions"] = len(cases)
        self.stats["selftest_rejected"] = sum(1 for o in oks if not o)
        bad = [j for j, o in enumerate(oks) if o]
        # (a falsified observation can be a legal one by chance, where the specification leaves a choice)
        self.stats["extra"] = dict(self.stats.get("extra", {}), falsified_accepted=[cases[j][-1][:500] for j in bad])
        if 2 * len(bad) > len(cases):
            raise ToolError("falsified observation accepted: %s" % cases[bad[0]][-1][:1000])
        if not cases:
            raise ToolError("no observation to falsify: the check is vacuous")

    def evidence(self, total, validated, lines_ok, hist, samples, phases, nscripts):
        c = self.c
        states = sum(m["states"] for m in self.ctx.models)
        trans = sum(m["transitions"] for m in self.ctx.models)
        ev = {
            "property": c.id, "tier": self.tier, "seed": self.seed, "level": c.level,
            "coverage": {
                "states": states + self.stats.get("trace_states", 0),
                "transitions": trans + lines_ok,
                "model_states": states,
                "model_transitions": trans,
                "trace_states": self.stats.get("trace_states", 0),
                "traces_validated_against_impl": validated,
                "trace_steps_validated": lines_ok,
                "scripts": nscripts, "operations": total,
                "operations_by_kind": hist,
                "models": self.ctx.models,
                "binding_selftest": {"falsified": self.stats.get("selftest_corruptions", 0),
                                     "rejected": self.stats.get("selftest_rejected", 0)},
                "phases_s": phases,
                "samples": samples,
            },
            "assumptions": c.assumptions(),
            "wall_s": round(time.time() - self.t0, 1),
            "violations": len(self.violations),
        }
        ev["coverage"].update(self.stats.get("extra", {}))
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        with open(os.path.join(VERIF, "evidence", c.id + ".json"), "w") as f:
            json.dump(ev, f, indent=1)


def collect(o, path, out):
    if isinstance(o, dict):
        for k, v in o.items():
            collect(v, path + (k,), out)
    elif isinstance(o, list):
        if path and not any(isinstance(x, (list, dict)) for x in o):
            out.append(path)
        else:
            for k, v in enumerate(o):
                collect(v, path + (k,), out)
            if not o and path:
                out.append(path)
    else:
        out.append(path)


def mutate(o, path):
    for k in path[:-1]:
        o = o[k]
    v = o[path[-1]]
    if isinstance(v, bool):
        v = not v
    elif isinstance(v, int):
        v = v + 1
    elif isinstance(v, str):
        v = v + "x"
    elif isinstance(v, list):
        if not v:
            v = [77]
        elif isinstance(v[-1], bool):
            v = v[:-1] + [not v[-1]]
        else:
            v = v[:-1]
    elif v is None:
        v = 1
    o[path[-1]] = v


def diff(a, b, path=""):
    """short description of the first differences between expected and observed"""
    if not path and isinstance(a, dict) and list(a) == ["wrong"] and isinstance(b, dict):
        crash = " " + str(b["crash"])[:150] if "crash" in b else ""
        return ["wrong: " + json.dumps(a["wrong"])[:300] + crash]
    if type(a) != type(b):
        return ["%s: expected %s, observed %s" % (path, json.dumps(a)[:150], json.dumps(b)[:150])]
    if isinstance(a, dict):
        r = []
        for k in sorted(set(a) | set(b)):
            if k not in a or k not in b:
                r.append("%s.%s: expected %s, observed %s" % (path, k, json.dumps(a.get(k, "(none)"))[:150], json.dumps(b.get(k, "(none)"))[:150]))
            else:
                r += diff(a[k], b[k], path + "." + k)
        return r[:6]
    if isinstance(a, list):
        if len(a) != len(b) or all(not isinstance(x, (list, dict)) for x in a + b):
            return [] if a == b else ["%s: expected %s, observed %s" % (path, json.dumps(a)[:150], json.dumps(b)[:150])]
        r = []
        for i, (x, y) in enumerate(zip(a, b)):
            r += diff(x, y, path + "[%d]" % i)
        return r[:6]
    return [] if a == b else ["%s: expected %s, observed %s" % (path, json.dumps(a)[:150], json.dumps(b)[:150])]


def why(rec, info):
    if info and "expected" in info:
        return "%s %s -> %s" % (rec["op"], json.dumps(rec["a"])[:400], "; ".join(diff(info["expected"], rec["o"]))[:1200])
    return "%s %s %s -> %s" % (rec["op"], json.dumps(rec["a"])[:200], json.dumps(rec["o"])[:400], json.dumps(info)[:800])


def main(check, argv):
    tier = os.environ.get("VERIF_TIER", "quick")
    if len(argv) > 1:
        tier = argv[1]
    seed = int(os.environ.get("VERIF_SEED", "1"))
    try:
        r = Runner(check, tier, seed)
        r.run()
    except (B.BuildError, T.TlcError, ToolError) as e:
        print("ERROR: %s" % e)
        return 2
    for key, what in sorted(set(r.known_seen)):
        print("KNOWN-FINDING: property=%s %s" % (check.id, what))
    for rp, rec, info in r.violations:
        print("rejected: %s" % why(rec, info))
        print("VIOLATION property=%s replay=%s" % (check.id, rp))
    ev = json.load(open(os.path.join(VERIF, "evidence", check.id + ".json")))
    print("%s %s: %d traces / %d steps validated, %d model states, %.0f s %s" % (
        check.id, tier, ev["coverage"]["traces_validated_against_impl"], ev["coverage"]["trace_steps_validated"],
        ev["coverage"]["model_states"], ev["wall_s"], ev["coverage"]["phases_s"]))
    return 1 if r.violations else 0
