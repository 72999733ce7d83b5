import json
from .. import flow, walks

READS = ["c", "ci", "c2", "h", "p", "b", "r"]


def programs(r, n):
    k = lambda: r.choice(["c", "c", "ci", "c2", "h", "h", "p", "b", "r"])
    out = []
    for _ in range(n):
        t = r.choice([2, 2, 2, 3])
        out.append(" / ".join(" ".join(k() for _ in range(r.choice([1, 2, 2, 3] if t == 2 else [1, 1, 2]))) for _ in range(t)))
    return out


class World:
    def __init__(self, r):
        self.r = r
        self.s = ["reset"]
        self.used = set()

    def bounds(self, kind):
        """points of a left and a right bound"""
        r = self.r
        n, m = r.choice([1, 2, 2, 3, 4, 6]), r.choice([1, 2, 2, 3, 4, 6])
        p = []
        if kind == "strip":      # between two wobbling lines
            l = sorted(r.sample(range(0, 13), n)); q = sorted(r.sample(range(0, 13), m))
            w = r.choice([0, 1, 2])
            p = [(x, 5 + r.randint(-w, w)) for x in l], [(x, 0 + r.randint(-w, w)) for x in q]
        elif kind == "curve":
            arc = [(0, 0), (1, 3), (3, 5), (6, 6), (9, 5), (11, 3), (12, 0)]
            inner = [(4, 0), (4, 1), (5, 2), (6, 2), (7, 2), (8, 1), (8, 0)]
            p = [arc[i] for i in sorted(r.sample(range(7), min(n, 7)))], [inner[i] for i in sorted(r.sample(range(7), min(m, 7)))]
            if r.random() < .5:
                p = p[1][::-1], p[0][::-1]
        else:
            p = [(r.randint(0, 6), r.randint(0, 6)) for _ in range(n)], [(r.randint(0, 6), r.randint(0, 6)) for _ in range(m)]
        return p

    def points(self, q, first):
        ids = []
        for i, (x, y) in enumerate(q):
            self.s.append("pt %d %d %d %d" % (first + i, x, y, self.r.randint(0, 3)))
            ids.append(first + i)
        self.used |= set(ids)
        return ids


def random_script(r, conc=None):
    w = World(r)
    s = w.s
    kind = r.choice(["strip", "strip", "curve", "any"])
    nl = 0
    P = []
    for k in range(r.choice([1, 2])):
        l, q = w.bounds(kind)
        a = w.points(l, 20 * k + 1); b = w.points(q, 20 * k + 11)
        if r.random() < .15:
            b = [a[0]] + b                 # closed at the start
        if r.random() < .1:
            b = b + [a[-1]]
        P += a + b
        s.append("line %d %s" % (nl + 1, " ".join(map(str, a))))
        s.append("line %d %s" % (nl + 2, " ".join(map(str, b))))
        nl += 2
    P = sorted(set(P))
    for _ in range(r.choice([0, 1, 2])):
        nl += 1
        s.append(("line %d %s" % (nl, " ".join(str(r.choice(P)) for _ in range(r.choice([0, 1, 2, 3, 4]))))).rstrip())
    LH = lambda: "%d %d" % (r.randint(1, nl), r.random() < .3)
    hs, muts = [], []

    def llt(n, l=None):
        s.append("llt %d %s" % (n, l or ("1 0 2 0" if r.random() < .5 else "%s %s" % (LH(), LH()))))
        hs.append(n); muts.append(n)
    llt(1, "1 0 2 0")
    if r.random() < .5:
        llt(2)
    hn = 10

    def handle():
        nonlocal hn
        hn += 1
        how = r.choice(["copy", "inv", "inv", "const", "cinv", "weak", "cweak", "data"])
        f = r.choice(hs)
        s.append("handle %s %d %d" % (how, hn, f))
        hs.append(hn)
        if f in muts and not how.startswith("c") or (how == "copy" and f in muts):
            muts.append(hn)
    for _ in range(r.choice([1, 3, 5])):
        handle()
    if conc:
        if r.random() < .3:
            s.append("setc %d %s" % (r.choice(muts), LH()))
        if r.random() < .3:
            s.append("setl %d %s" % (r.choice(muts), LH()))
        h = r.choice(hs)
        if conc == "race":
            s.append("race %d 12 %s" % (h, programs(r, 1)[0]))
        else:
            s += ["explore %d 2 %s" % (h, p) for p in programs(r, 3)]
        s.append("probe %d" % h)
        return s
    areas, ahs = 0, []
    for _ in range(r.choice([12, 30, 60])):
        f = r.random()
        m = r.choice(muts)
        if f < .08:
            handle()
        elif f < .2:
            s.append("%s %d %s" % (r.choice(["setl", "setr"]), m, LH()))
        elif f < .25:
            s.append("setc %d %s" % (m, LH()))
        elif f < .29:
            s.append("fresh %d" % r.choice(hs))
        elif f < .33:
            s.append("attr %d %d" % (m, r.randint(1, 9)))
        elif f < .38:
            s.append("%s %d %d" % (r.choice(["addre", "addre", "remre"]), m, r.randint(1, 4)))
        elif f < .46:
            s.append("push %s %d" % (LH(), r.choice(P)) if r.random() < .6 else "pop %s" % LH())
            if r.random() < .6:
                s += ["fresh %d" % h for h in hs[:2]]
        elif f < .5:
            s.append("pt %d %d %d %d" % (r.choice(P), r.randint(0, 12), r.randint(0, 6), r.randint(0, 3)))
            if r.random() < .6:
                s += ["fresh %d" % h for h in hs[:2]]
        elif f < .53:
            s.append("%s %d" % (r.choice(["map", "submap"]), m))
        elif f < .56:
            areas += 1
            s.append("area %d %s" % (50 + areas, " ".join(LH() for _ in range(r.choice([1, 2, 3])))))
            ahs.append(50 + areas)
        elif f < .72 and ahs:
            a = r.choice(ahs)
            k = r.random()
            if k < .25:
                s.append("outer %d %s" % (a, " ".join(LH() for _ in range(r.choice([1, 2, 3])))))
            elif k < .5:
                rings = " 0 0 ".join(" ".join(LH() for _ in range(r.choice([1, 2]))) for _ in range(r.choice([0, 1, 2, 3])))
                s.append(("inner %d %s" % (a, rings)).rstrip())
            elif k < .6:
                hn += 1
                s.append("ahandle %s %d %d" % (r.choice(["copy", "weak"]), hn + 100, a))
                ahs.append(hn + 100)
            elif k < .7:
                s.append("aattr %d %d" % (a, r.randint(1, 9)))
            elif k < .85:
                s.append("%s %d %d" % (r.choice(["aaddre", "aremre"]), a, r.randint(1, 4)))
            s.append("aprobe %d" % r.choice(ahs))
        else:
            s.append("probe %d" % r.choice(hs))
    s += ["probe %d" % h for h in hs[:6]] + ["aprobe %d" % a for a in ahs[:3]]
    return s


class C09(flow.Check):
    id = "C09"
    driver = "c09"
    libs = ["core"]
    variant = "shim"
    flags = ("-include", flow.VERIF + "/harness/shim.h")
    extra_builds = (("tsan", ("-fsanitize=thread", "-DVT_NO_SHIM", "-include", flow.VERIF + "/harness/shim.h"), ("-fsanitize=thread",)),)
    trace_module = "LaneletGeomTrace"
    level_note = ("All histories of one lanelet (bounds, custom centerline, edits in place, cache resets, readings) through handles in both "
                  "directions; random histories over several lanelets, handles of all kinds and areas; programs of two or three reading "
                  "threads under all schedules with two preemptions; real threads under the race detector.")

    def models(self, tier):
        return [("LaneletGeomMC", "LaneletGeomMC", {"workers": 4, "want_coverage": False})]

    def scripts(self, ctx):
        r = ctx.rnd
        pr = ctx.printed["LaneletGeomMC"]
        edges = walks.parse(pr)
        setup = next([walks.fmt(e) for e in json.loads(x)["setup"]] for x in pr if isinstance(x, str) and x.startswith('{"setup"'))
        ctx.printed.clear()
        w, n = walks.cover(edges, edges[0]["f"], rnd=r, maxlen=150)
        out = []
        for s in w:
            q = ["reset"] + setup
            for x in s[1:]:
                q.append(x)
                if r.random() < .3:
                    q.append("probe %d" % r.randint(1, 4))
            out.append(q)
        out += [random_script(r) for _ in range(500 if ctx.quick else 9000)]
        out += [random_script(r, "explore") for _ in range(60 if ctx.quick else 800)]
        out += [random_script(r, "race") for _ in range(40 if ctx.quick else 400)]
        return out

    def corruptible(self, rec):
        return rec["op"] == "aprobe"

    def assumptions(self):
        return ["after points or lines of a bound were edited in place, a computed centerline is only specified again after resetCache, as documented",
                "which pairs of bound points a computed centerline connects is not specified, only that it advances along the current bounds from "
                "the start to the end without crossing them",
                "the coordinates of points read concurrently were not changed after their creation"]


CHECK = C09()
