import json
import math
from .. import flow, walks


# ---- worlds: simple rings on an integer grid
def cross(a, b, c):
    return (b[0] - a[0]) * (c[1] - a[1]) - (b[1] - a[1]) * (c[0] - a[0])


def on(a, b, p):
    return cross(a, b, p) == 0 and min(a[0], b[0]) <= p[0] <= max(a[0], b[0]) and min(a[1], b[1]) <= p[1] <= max(a[1], b[1])


def meet(a, b, c, d):
    if on(a, b, c) or on(a, b, d) or on(c, d, a) or on(c, d, b):
        return True
    sg = lambda x: (x > 0) - (x < 0)
    return sg(cross(a, b, c)) * sg(cross(a, b, d)) < 0 and sg(cross(c, d, a)) * sg(cross(c, d, b)) < 0


def simple(q):
    n = len(q)
    if n < 3 or len(set(q)) < n:
        return False
    for i in range(n):
        a, b, c = q[i], q[(i + 1) % n], q[(i + 2) % n]
        if cross(a, b, c) == 0 and (c[0] - b[0]) * (b[0] - a[0]) + (c[1] - b[1]) * (b[1] - a[1]) < 0:
            return False
        for j in range(i + 2, n):
            if i == 0 and j == n - 1:
                continue
            if meet(a, b, q[j], q[(j + 1) % n]):
                return False
    return True


def area2(q):
    return sum(q[i][0] * q[(i + 1) % len(q)][1] - q[(i + 1) % len(q)][0] * q[i][1] for i in range(len(q)))


def ring(r, lo=0, hi=10, k=None):
    """a simple clockwise ring"""
    while True:
        k2 = k or r.choice([3, 4, 4, 5, 6, 8])
        cx, cy = r.randint(lo, hi), r.randint(lo, hi)
        rad = r.choice([2, 3, 5, 8])
        box = lambda v: max(lo, min(hi, v))
        q = list({(box(cx + r.randint(-rad, rad)), box(cy + r.randint(-rad, rad))) for _ in range(k2)})
        mx, my = sum(p[0] for p in q) / len(q) + .01, sum(p[1] for p in q) / len(q) + .017
        q.sort(key=lambda p: -math.atan2(p[1] - my, p[0] - mx))
        if simple(q) and area2(q) != 0:
            if area2(q) > 0:
                q.reverse()
            s = r.randrange(len(q))
            return q[s:] + q[:s]


class World:
    def __init__(self, r):
        self.r, self.s, self.n, self.names = r, [], {}, []
        self.pts = []

    def name(self, k):
        self.n[k] = self.n.get(k, 0) + 1
        return "%s%d" % (k, self.n[k])

    def point(self, xy=None):
        r = self.r
        x, y = xy if xy else (r.randint(0, 10), r.randint(0, 10))
        n = self.name("p")
        self.s.append("pt %s %d %d %d" % (n, x, y, r.randint(0, 3)))
        self.names.append(n)
        self.pts.append(n)
        return n

    def line(self, qs):
        n = self.name("l")
        ps = [self.point(q) if isinstance(q, tuple) else q for q in qs]
        self.s.append(" ".join(["line", n] + ps))
        self.names.append(n)
        return n, ps

    def handle(self, qs):
        """a line showing qs, stored in either direction"""
        if self.r.random() < .4:
            n, ps = self.line(list(reversed(qs)))
            return (n, 1), list(reversed(ps))
        n, ps = self.line(qs)
        return (n, 0), ps

    def any_line(self):
        r = self.r
        k = r.choice([0, 1, 2, 2, 2, 3, 3, 5]) if r.random() < .3 else r.choice([2, 2, 3, 4])
        return self.line([r.choice(self.pts) if self.pts and r.random() < .3 else (r.randint(0, 10), r.randint(0, 10)) for _ in range(k)])[0]

    def poly(self):
        n = self.name("g")
        ps = [] if self.r.random() < .05 else [self.point(q) for q in ring(self.r)]
        self.s.append(" ".join(["poly", n] + ps))
        self.names.append(n)
        return n

    def llt(self):
        r = self.r
        q = ring(r, k=r.choice([4, 4, 5, 6, 8]))
        c = r.randint(1, len(q) - 1)
        left, _ = self.handle(q[:c])
        right, _ = self.handle(list(reversed(q[c:])))
        n = self.name("t")
        self.s.append("llt %s %s %d %s %d" % (n, left[0], left[1], right[0], right[1]))
        self.names.append(n)
        return n

    def bound(self, q):
        """a ring as one to three lines, sharing their end points"""
        r = self.r
        m = min(r.choice([1, 2, 3]), len(q))
        cuts = sorted(r.sample(range(1, len(q)), m - 1))
        parts = [q[a:b] for a, b in zip([0] + cuts, cuts + [len(q)])]
        out, prev = [], None
        for part in parts:
            h, ps = self.handle(([prev] if prev else []) + part)
            prev = ps[-1]
            out.append("%s %d" % h)
        return " ".join(out)

    def area(self):
        r = self.r
        if r.random() < .4:
            # one with a hole
            x, y = r.randint(0, 3), r.randint(0, 3)
            q = [(x, y), (x, y + 6), (x + 6, y + 7), (x + 7, y)]
            hole = ring(r, 1, 5)
            h = [(a + x, b + y) for a, b in hole][::-1]
        else:
            q, h = ring(r), None
        b = self.bound(q)
        n = self.name("a")
        self.s.append("area %s %s" % (n, b))
        if h:
            self.s.append("hole %s %s" % (n, self.bound(h)))
        self.names.append(n)
        return n

    def re(self):
        r = self.r
        c = [x for x in self.names if x[0] != "r"]
        n = self.name("r")
        self.s.append(" ".join(["re", n] + r.sample(c, min(len(c), r.choice([0, 1, 1, 2, 3])))))
        self.names.append(n)
        return n


def query(r, m, kinds, lines, world_size, lo=-3, hi=13):
    k = r.choice(kinds)
    c = lambda: r.randint(lo, hi)
    xy = "%d %d" % (c(), c())
    n = r.choice([0, 1, 1, 2, 2, 3, 4, 6, world_size, world_size + 2, 40])

    def box():
        w, h = r.choice([0, 1, 3, 6, 9, 16]), r.choice([0, 1, 3, 6, 9, 16])
        x, y = r.randint(lo, hi), r.randint(lo, hi)
        return "%d %d %d %d" % (x, y, min(x + w, hi), min(y + h, hi))

    lim = 0 if r.random() < .25 else 100 * r.choice([0, 1, 2, 3, 5, 8, 14]) + 37
    f = r.random()
    if k == "r" and f >= .7:
        f = f - .5
    if f < .2:
        return "box %d %s %s" % (m, k, box())
    if f < .32:
        return "nearest %d %s %s %d" % (m, k, xy, n)
    if f < .42:
        return "nuntil %d %s %s %d" % (m, k, xy, n)
    if f < .52:
        return "suntil %d %s %s %d" % (m, k, box(), n)
    if f < .7:
        return "fnear %d %s %s %d" % (m, k, xy, n)
    if f < .82:
        return "fwith %d %s %d %s" % (m, k, lim, xy)
    if f < .92 and lines:
        return "fwithg %d %s %d %s" % (m, k, lim, r.choice(lines))
    return "fwith3 %d %s %d %s %d" % (m, r.choice("pl"), lim, xy, r.randint(0, 3))


def usable(world):
    """elements that are not empty, as geometry of a query"""
    return [l.split()[1] for l in world.s if l.split()[0] in ("line", "poly", "llt") and (len(l.split()) > 3)]


def random_world(r, big=False):
    w = World(r)
    for _ in range(r.choice([0, 1, 3])):
        w.point()
    size = r.choice([60, 120, 250]) if big else r.choice([1, 2, 4, 6, 9, 14, 20])
    tops = []
    mk = [w.any_line, w.poly, w.llt, w.area, w.re, w.point]
    if r.random() < .4:
        mk = [r.choice(mk), r.choice(mk)]
    for _ in range(size):
        tops.append(r.choice(mk)())
    s = ["reset"] + w.s
    lines = usable(w)
    kinds = sorted({x[0] for x in w.names})
    order = list(tops)
    r.shuffle(order)
    queries = 0
    stop = r.randint(len(order) // 2, len(order)) if r.random() < .3 else len(order)
    for i, t in enumerate(order):
        m = r.choice([1, 1, 1, 1, 3])
        if m == 3:
            s.append("add 3 %s" % t)
        if i < stop or m == 1:
            s.append("add 1 %s" % t)
        if r.random() < (.05 if big else .25):
            for _ in range(r.randint(1, 4)):
                s.append(query(r, r.choice([1, 1, 3]), kinds, lines, size))
    if r.random() < .6:
        s.append("copy")
        if r.random() < .5:
            s.append("add 2 %s" % r.choice(tops))
    for _ in range(r.choice([10, 40]) if not big else 60):
        s.append(query(r, r.choice([1, 1, 2, 3]), kinds, lines, size))
    return s


def model_walks(printed, r, every):
    edges = walks.parse(printed)
    setup = next([walks.fmt(e) for e in json.loads(x)["setup"]] for x in printed if isinstance(x, str) and x.startswith('{"setup"'))
    w, n = walks.cover(edges, edges[0]["f"], rnd=r, maxlen=60)
    lines = ["l1", "l3", "g1", "t1"]
    out = []
    for s in w:
        o = ["reset"] + setup
        for step in s[1:]:
            o.append(step)
            if r.random() < .15:
                o.append("copy")
            for _ in range(every):
                o.append(query(r, r.choice([1, 1, 1, 1, 1, 2, 3]), "plgtar", lines, 8))
        out.append(o)
    return out


class C04(flow.Check):
    id = "C04"
    driver = "c04"
    libs = ["core"]
    trace_module = "MapSearchTrace"
    level_note = ("All contents of a small world, reached in every order of additions, with sampled queries of every kind; the search of "
                  "the nearest elements is modelled with every order of equally close boxes. Random worlds of up to 250 elements.")

    def models(self, tier):
        return [("MapSearchMC", "MapSearchMC", {"workers": 4, "want_coverage": False, "heap": "6g"})]

    def scripts(self, ctx):
        r = ctx.rnd
        out = model_walks(ctx.printed["MapSearchMC"], r, 2 if ctx.quick else 8)
        ctx.printed.clear()
        out += [random_world(r) for i in range(400 if ctx.quick else 8000)]
        out += [random_world(r, True) for i in range(8 if ctx.quick else 100)]
        return out

    def corruptible(self, rec):
        return rec["op"] in ("box", "fnear", "fwith", "fwithg", "fwith3", "nuntil") and len(rec["o"].get("r", [])) > 1

    def assumptions(self):
        return ["rings are simple; bounds are not edited after they were added to a map",
                "integer coordinates 0..10 with exact rational distances; limits are never equal to a distance, except 0",
                "with limit 0, elements that touch the query only with an edge may be missed (documented rounding errors)",
                "nearest(n) promises the set of the closest boxes, not their order; searchUntil promises no order"]


CHECK = C04()
