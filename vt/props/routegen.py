"""Worlds and queries for the routing graph (see spec/Routing.tla): from the transitions of RoutingMC and at random."""
import json
from .. import walks


def model_walks(printed, r, queries, every):
    """all transitions of RoutingMC; after a transition into a new state (every: after any transition) the graph is built and
    queried: queries(r, n) -> lines"""
    edges = walks.parse(printed)
    setup = None
    for x in printed:
        if isinstance(x, str) and x.startswith('{"setup"'):
            setup = [walks.fmt(e) for e in json.loads(x)["setup"]]
    to = {(e["f"], walks.fmt(e)): e["t"] for e in edges}
    init = edges[0]["f"]
    seen = {init}
    out = []
    w, n = walks.cover(edges, init, rnd=r, maxlen=60)
    for script in w:
        st = init
        s = ["reset"] + setup
        n = 0
        for step in script[1:]:
            st = to[(st, step)]
            s.append(step)
            if every or st not in seen:
                seen.add(st)
                n += 1
                s.append("build t x t,d2 %d _" % r.choice([-1, 2]))
                s += queries(r, n)
        if n:
            out.append(s)
    return out


LL = ["a1", "a2", "b1", "b2", "c", "x", "a1~", "b1~"]


def graph_queries(r, n):
    h = r.sample(LL + ["P"], 3)
    return ["graph"] + ["nb %s %d" % (x, r.randrange(2)) for x in h] + (["dbg %d %d %d" % (r.randrange(2), r.randrange(2), r.randrange(2))] if r.random() < .2 else []) \
        + (["cont %s %d 0" % (r.choice(LL), r.randrange(n))] if r.random() < .2 else [])


def path_queries(r, n):
    out = []
    for _ in range(4):
        ar = r.random() < .5
        f = LL + ["P"] if ar else LL
        out.append("sp %s %s %d %d %d%s" % (r.choice(["a1", "b1"]), r.choice(f), r.randrange(2), r.random() < .8, ar, " " + r.choice(f) if r.random() < .3 else ""))
    return out


def search_queries(r, n):
    c = r.choice([0, 2, 5, 8, 11]) * 2000
    k = r.randrange(2)
    m = r.choice("fba")
    return ["reach %s %s %d %d %d" % (m, r.choice(["a1", "b2", "c"]), c, k, r.random() < .5),
            "paths %s %s %d %d %d %d %d %d" % (r.choice("fba"), r.choice(["a1", "b1", "b2"]), *r.choice([(c, -1), (-1, r.randint(1, 5))]), k, r.random() < .5, 0, r.random() < .3),
            "visit %s %s %d %d %s" % (r.choice(["f", "b", "fa", "ba"]), r.choice(["a1", "b2"]), k, r.random() < .8, r.choice(["", "c", "a2 b2"]))]


def route_queries(r, n):
    return ["route %s %s %d %d%s" % (r.choice(["a1", "b1"]), r.choice(["a2", "b2", "b1", "c"]), r.randrange(2), r.random() < .8, " c" if r.random() < .2 else "")] \
        + ["rq %s" % h for h in r.sample(LL, 3)] + ["rvisit %s %s 0 1" % (r.choice("fb"), r.choice(["a1", "b2"]))] + (["rdbg"] if r.random() < .3 else [])



class World:
    def __init__(self, r, real=False, big=False):
        self.r = r
        self.real = real
        self.geo = []
        self.pts = {}
        self.lines = {}
        self.llts = []
        self.areas = []
        self.box = {}
        self.ends = {}
        self.used = set()
        self.lefts, self.rights = {}, {}
        self.forks = False
        self.hasring = False
        n = r.choice([1, 1, 2, 2, 3])
        kinds = ["grid"] + [r.choice(["grid", "cross", "cross", "ring"]) for _ in range(n - 1)]
        if r.random() < .15:
            kinds[0] = "ring"
        for i, k in enumerate(kinds):
            getattr(self, k)(i)
        if not self.llts:
            self.llt([(0, 60, 0), (4, 60, 0)], [(0, 57, 0), (4, 57, 0)])
        for _ in range(r.choice([0, 0, 1, 2, 3])):
            self.area()

    # ---- geometry
    def pt(self, x, y, z):
        k = (x, y, z)
        if k not in self.pts:
            self.pts[k] = "p%d" % len(self.pts)
            self.geo.append("pt %s %d %d %d" % (self.pts[k], x, y, z))
        return self.pts[k]

    def line(self, ps):
        t = tuple(ps)
        if t in self.lines:
            return (self.lines[t], 0)
        if t[::-1] in self.lines:
            return (self.lines[t[::-1]], 1)
        n = "l%d" % len(self.lines)
        inv = self.r.random() < .35
        k = t[::-1] if inv else t
        self.lines[k] = n
        self.geo.append("line %s %s" % (n, " ".join(k)))
        return (n, 1 if inv else 0)

    def llt(self, left, right, flip=False):
        """left/right: lists of coordinates in driving direction"""
        if flip:
            left, right = right[::-1], left[::-1]
        n = "ab"[self.r.random() < .5] + str(len(self.llts))
        l, r = self.line([self.pt(*p) for p in left]), self.line([self.pt(*p) for p in right])
        # a boundary has at most one lanelet on each side: neighbours are unique
        if l in self.used or (r[0], 1 - r[1]) in self.used:
            return None
        self.used |= {l, (r[0], 1 - r[1])}
        self.geo.append("llt %s %s %d %s %d" % (n, l[0], l[1], r[0], r[1]))
        self.llts.append(n)
        xs = [p[0] for p in left + right]; ys = [p[1] for p in left + right]
        self.box[n] = (min(xs), min(ys), max(xs), max(ys))
        self.ends[n] = (left, right)
        self.lefts[n], self.rights[n] = l, r
        return n

    def mids(self, a, b, k):
        """k points strictly between a and b with integer coordinates when possible"""
        q = [a]
        for i in range(1, k + 1):
            x, y = a[0] + (b[0] - a[0]) * i / (k + 1), a[1] + (b[1] - a[1]) * i / (k + 1)
            if x == int(x) and y == int(y):
                q.append((int(x), int(y), a[2]))
            else:
                return [a, b]
        return q + [b]

    def grid(self, idx, o=None, rot=None, dims=None):
        r = self.r
        o = o or ((0, 0) if idx == 0 else (r.choice([0, 8, 200]), r.choice([4, 30, 100])))
        z = 0 if idx == 0 else r.choice([0, 0, 3, 5])
        rot = r.random() < .2 if rot is None else rot
        cols, lanes = dims or (r.randint(1, 4), r.randint(1, 3))
        cross = cols * lanes > 1 and lanes > 1 and r.random() < .45
        u = r.choice([1, 2, 4])
        dy = 3 * u if cross else r.choice([2, 3, 4])
        xs = [0]
        for i in range(cols):
            xs.append(xs[-1] + (4 * u if cross else r.choice([4, 8, 10, 12, 20])))

        def P(i, j):
            x, y = xs[i], -j * dy
            return (o[0] - y, o[1] + x, z) if rot else (o[0] + x, o[1] + y, z)
        dirs = [r.random() < .25 for _ in range(lanes)]
        k = r.choice([0, 0, 1])
        for i in range(cols):
            for j in range(lanes):
                if r.random() < .06:
                    continue
                self.llt(self.mids(P(i, j), P(i + 1, j), k), self.mids(P(i, j + 1), P(i + 1, j + 1), k), dirs[j])
                if cross and r.random() < .5:
                    t = j + r.choice([-1, 1])
                    if 0 <= t < lanes and dirs[t] == dirs[j]:
                        self.forks = True
                        self.llt([P(i, j), P(i + 1, t)], [P(i, j + 1), P(i + 1, t + 1)], dirs[j])

    def cross(self, idx):
        """another road over the first one"""
        r = self.r
        self.grid(idx, o=(r.choice([1, 5, 9, 13]), r.choice([-20, -9, -5])), rot=True, dims=(r.randint(1, 3), r.randint(1, 2)))

    def ring(self, idx):
        """concentric squares: lanes around a block"""
        r = self.r
        self.hasring = True
        o = (300 * idx, r.choice([0, 40]))
        lanes = r.choice([1, 1, 2])
        a, w = r.choice([6, 10]), r.choice([2, 3])
        flip = r.random() < .3
        def corner(k, j):
            q = [(-1, -1), (1, -1), (1, 1), (-1, 1)][k % 4]
            s = a + j * w
            return (o[0] + q[0] * s, o[1] + q[1] * s, 0)
        for k in range(4 if r.random() < .8 else 3):
            for j in range(lanes):
                self.llt([corner(k, j), corner(k + 1, j)], [corner(k, j + 1), corner(k + 1, j + 1)], flip)

    def area(self):
        r = self.r
        n = "P%d" % len(self.areas)
        m = r.choice(self.llts)
        left, right = self.ends[m]
        kind = r.choice(["side", "side", "over", "end"] + (["next"] if self.areas else []))
        z = left[0][2]
        x0, y0, x1, y1 = self.box[m]
        if kind == "next":
            q = r.choice(self.areas)
            x0, y0, x1, y1 = self.box[q]
            z = self.zs[q]
            w = r.choice([2, 4])
            c = [(x1, y0, z), (x1, y1, z), (x1 + w, y1, z), (x1 + w, y0, z)]     # clockwise
        elif kind == "over":
            dx, dy = r.choice([0, 1, 2]), r.choice([-3, 0, 1])
            z = r.choice([z, z, z + 4])
            c = [(x0 + dx, y0 + dy, z), (x0 + dx, y1 + dy, z), (x1 + dx + 1, y1 + dy, z), (x1 + dx + 1, y0 + dy, z)]
        elif kind == "end":
            p, q = left[-1], right[-1]      # the area lies ahead: front edge from q to p
            d = (left[-1][0] - left[0][0], left[-1][1] - left[0][1])
            f = max(abs(d[0]), abs(d[1]))
            if not (d[0] == 0 or d[1] == 0) or not (p[0] == q[0] or p[1] == q[1]):
                return
            d = (d[0] // f * 4, d[1] // f * 4)
            c = [q, p, (p[0] + d[0], p[1] + d[1], z), (q[0] + d[0], q[1] + d[1], z)]
        else:
            # left of the lanelet: shares its left bound
            a, b = left[0], left[-1]
            d = (b[0] - a[0], b[1] - a[1])
            if not (d[0] == 0 or d[1] == 0):
                return
            f = max(abs(d[0]), abs(d[1]))
            nrm = (-d[1] // f * 3, d[0] // f * 3)
            c = [list(q) for q in left] + [(b[0] + nrm[0], b[1] + nrm[1], z), (a[0] + nrm[0], a[1] + nrm[1], z)]
            c = [tuple(q) for q in c][::-1]
        if len({(q[0], q[1]) for q in c}) != len(c):
            return
        # rings of one to four lines; shared boundaries become lines of their own
        if kind == "side":
            # c = [a+n, b+n, b, ..., a]; closing line a -> a+n
            ringl = [[c[0], c[1]], [c[1], c[2]], c[2:], [c[-1], c[0]]]
        else:
            ringl = [[c[i], c[(i + 1) % len(c)]] for i in range(len(c))]
        hs = []
        for q in ringl:
            hs.append(self.line([self.pt(*x) for x in q]))
        self.geo.append("area %s %s" % (n, " ".join("%s %d" % h for h in hs)))
        self.areas.append(n)
        if not hasattr(self, "zs"):
            self.zs = {}
        self.zs[n] = z
        xs = [p[0] for p in c]; ys = [p[1] for p in c]
        self.box[n] = (min(xs), min(ys), max(xs), max(ys))

    def touches(self, a, b):
        p, q = self.box[a.rstrip("~")], self.box[b.rstrip("~")]
        return p[0] <= q[2] and q[0] <= p[2] and p[1] <= q[3] and q[1] <= p[3]

    def overlapping(self, a, b):
        p, q = self.box[a], self.box[b]
        return p[0] < q[2] and q[0] < p[2] and p[1] < q[3] and q[1] < p[3]

    # ---- rules
    def handles(self):
        return [h for n in self.llts for h in (n, n + "~")]

    def neighbours(self):
        out = []
        for a in self.handles():
            for b in self.handles():
                if a != b and (self.rb(b) == self.lb(a) or self.lb(b) == self.rb(a)):
                    out.append((a, b))
        return out

    def lb(self, h):
        f = lambda x: (x[0], 1 - x[1])
        return f(self.rights[h[:-1]]) if h.endswith("~") else self.lefts[h]

    def rb(self, h):
        f = lambda x: (x[0], 1 - x[1])
        return f(self.lefts[h[:-1]]) if h.endswith("~") else self.rights[h]

    def followers(self):
        out = []
        for a in self.handles():
            for b in self.handles():
                A, B = self.path(a), self.path(b)
                if a != b and A[0][-1] == B[0][0] and A[1][-1] == B[1][0]:
                    out.append((a, b))
        return out

    def path(self, h):
        if h.endswith("~"):
            l, r = self.ends[h[:-1]]
            return r[::-1], l[::-1]
        return self.ends[h]

    def areapairs(self):
        out = []
        for n in self.areas:
            for h in self.handles() + self.areas:
                if h != n and self.touches(n, h):
                    out += [(n, h), (h, n)]
        return out


def table_rules(w, r):
    s = []
    both = r.random() < .35
    for n in w.llts + w.areas:
        x = r.random()
        if x < .08:
            s.append("pass %s 0" % n)
        elif n in w.llts and (both or x < .2):
            s.append("pass %s 2" % n)
    d = r.choice([.2, .6, .9])
    for a, b in w.neighbours():
        if r.random() < d:
            s.append("ch %s %s 1" % (a, b))
    for a, b in w.followers():
        if r.random() < .06:
            s.append("pp %s %s 0" % (a, b))
    for a, b in w.areapairs():
        if a in w.areas and b in w.areas and w.overlapping(a, b):
            continue
        if r.random() < .35:
            s.append("pp %s %s 1" % (a, b))
    return s


def cost_table(w, r, neg=False):
    s = []
    hs = w.handles() + w.areas
    mode = r.choice(["few", "wide", "ones"])
    for h in hs:
        if mode != "ones" or r.random() < .1:
            s.append("cost %s %d" % (h, r.choice([0, 1, 1, 2, 3]) if mode == "few" else r.randint(1, 60)))
    for a, b in w.followers():
        x = r.random()
        if x < .03:
            s.append("cpair %s %s 99999" % (a, b))
        elif x < .15:
            s.append("cpair %s %s %d" % (a, b, r.randint(0, 9)))
    for a, b in w.neighbours():
        x = r.random()
        if x < .12:
            s.append("lcost %s %s 99999" % (a, b))
        elif x < .5:
            s.append("lcost %s %s %d" % (a, b, r.randint(0, 8)))
    return s


DE_LINE = [("line_thin", "dashed"), ("line_thin", "solid"), ("line_thick", "dashed_solid"), ("line_thick", "solid_dashed"),
           ("line_thin", "dashed"), ("virtual", "_"), ("curbstone", "low"), ("curbstone", "high"), ("road_border", "_")]
DE_PART = ["vehicle", "vehicle:car", "vehicle:bus", "pedestrian", "bicycle"]


def real_rules(w, r):
    s = []
    for n in w.lines.values():
        t, st = r.choice(DE_LINE)
        s.append("tag %s type %s" % (n, t))
        if st != "_":
            s.append("tag %s subtype %s" % (n, st))
    main = r.choice(["road", "road", "walkway", "bicycle_lane", "shared_walkway", "play_street"])
    for n in w.llts:
        s.append("tag %s subtype %s" % (n, main if r.random() < .7 else r.choice(["road", "walkway", "bus_lane", "crosswalk"])))
        s.append("tag %s location %s" % (n, r.choice(["urban", "nonurban"])))
        if r.random() < .25:
            s.append("tag %s one_way %s" % (n, r.choice(["yes", "no"])))
        if r.random() < .2:
            s.append("tag %s participant:%s %s" % (n, r.choice(["vehicle", "pedestrian", "bicycle"]), r.choice(["yes", "no"])))
    for n in w.areas:
        s.append("tag %s subtype %s" % (n, r.choice(["walkway", "shared_walkway", "parking", "freespace", "vegetation"])))
        if r.random() < .4:
            s.append("tag %s participant:%s yes" % (n, r.choice(["bicycle", "pedestrian"])))
    return s


class Query:
    """one random world and how often which queries are asked"""

    def __init__(self, w, r):
        self.w, self.r = w, r
        self.hs = w.handles()

    def costs(self, real):
        r = self.r
        if real:
            return r.choice(["d0", "d2", "d10", "d2,d10"])
        pool = ["t", "t,d2", "d10", "d0", "d2,t", "v2", "v0,d10", "t,v5", "d2", "v5,t,d0"]
        if not self.w.forks and not self.w.hasring:
            pool += ["d1m15", "d2m25,t", "t,d0m40", "d2m25", "d1m15,d10"]
        return r.choice(pool)

    def build(self, real, sub=None):
        r = self.r
        c = self.costs(real)
        self.k = c.count(",") + 1
        self.hv = "v" in c
        h = r.choice([-1, -1, -1, 2, 4, 6])
        return "build %s %s %s %d %s" % ("de" if real else "t", r.choice(DE_PART) if real else "x", c, h, sub or "_")

    def kk(self):
        return self.k if self.r.random() < .02 else self.r.randrange(self.k)

    def h(self):
        # mostly forward handles
        return self.r.choice(self.w.llts) if self.r.random() < .7 else self.r.choice(self.hs)

    def ha(self):
        return self.r.choice(self.w.areas) if self.w.areas and self.r.random() < .4 else self.h()

    def limit(self):
        x = self.r.choice([0, 1, 1, 2, 3, 5, 8, 13, 20, 30, 60])
        if self.r.random() < .02:
            return -2000
        return x * 2000 + (7 if self.hv else self.r.choice([0, 0, 1000, 7]))

    def graph(self):
        return ["graph"]

    def nb(self):
        return ["nb %s %d" % (self.ha(), self.kk())]

    def allnb(self):
        k = self.kk()
        return ["nb %s %d" % (h, k) for h in self.hs + self.w.areas]

    def dbg(self):
        # the map writes costs with 6 digits: only where this is exact
        return ["dbg %d %d %d" % (self.kk(), self.r.randint(0, 1), self.r.randint(0, 1))] if not self.hv else []

    def sp(self):
        r = self.r
        via = r.choice([0, 0, 0, 1, 2])
        ar = r.random() < .3
        f = self.ha if ar else self.h
        return ["sp %s %s %d %d %d%s" % (f(), f(), self.kk(), r.randint(0, 3) > 0, ar, "".join(" " + f() for _ in range(via)))]

    def reach(self):
        m = self.r.choice("fba")
        return ["reach %s %s %d %d %d" % (m, self.ha() if m == "a" else self.h(), self.limit(), self.kk(), self.r.randint(0, 1))]

    def paths(self):
        r = self.r
        m = r.choice("fba")
        cl = self.limit() if r.random() < .6 else -1
        nl = r.randint(0, 6) if cl == -1 or r.random() < .25 else -1
        if r.random() < .02:
            cl = nl = -1
        if cl < 0:
            cl = -1
        over = r.random() < .3 and (cl < 0) != (nl < 0)
        sh = r.random() < .5 and not over
        return ["paths %s %s %d %d %d %d %d %d" % (m, self.ha() if m == "a" else self.h(), cl, nl, self.kk(), r.randint(0, 1), sh, over)]

    def visit(self):
        r = self.r
        m = r.choice(["f", "b", "fa", "ba"])
        f = self.ha if len(m) == 2 else self.h
        stop = " ".join(sorted(set(f() for _ in range(r.choice([0, 1, 2, 3])))))
        return [("visit %s %s %d %d %s" % (m, f(), self.kk(), r.randint(0, 3) > 0, stop)).strip()]

    def route(self):
        r = self.r
        via = r.choice([0, 0, 0, 1, 2])
        return ["route %s %s %d %d%s" % (self.h(), self.h(), self.kk(), r.randint(0, 4) > 0, "".join(" " + self.h() for _ in range(via)))]

    def rvisit(self):
        r = self.r
        stop = " ".join(sorted(set(self.h() for _ in range(r.choice([0, 0, 1, 2])))))
        return [("rvisit %s %s 0 1 %s" % (r.choice("fb"), self.h(), stop)).strip()]

    def cont(self, n):
        r = self.r
        return ["cont %s %d %d" % (self.h(), r.randrange(n + (r.random() < .05)), r.choice([0, 0, 2, 4]))]


def script(r, focus, real=False, builds=2, queries=14):
    """focus: name of the property whose queries dominate"""
    w = World(r, real)
    q = Query(w, r)
    s = ["reset"] + list(w.geo)
    s += real_rules(w, r) if real else table_rules(w, r) + cost_table(w, r)
    if not real:
        for n in w.llts + w.areas:
            if r.random() < .5:
                s.append("speed %s %d" % (n, r.choice([1, 2, 5, 10, 20, 0])))
    sub = None
    if r.random() < .3:
        el = [n for n in w.llts + w.areas if r.random() < .75] or [w.llts[0]]
        s.append("sub S %s" % " ".join(el))
        sub = "S"
    n = 0
    for b in range(builds):
        bad = None
        if b and not real:
            # change some rules, then build again
            t = table_rules(w, r) + cost_table(w, r)
            s += r.sample(t, min(len(t), r.randint(1, 6)))
            f = w.followers()
            if f and r.random() < .08:
                bad = r.choice(f)
                s.append("cpair %s %s -1" % bad)
        if bad:
            s.append("build t x t,d2 -1 _")
            s.append("cpair %s %s 4" % bad)
        if r.random() < .02:
            s.append("build t x %s -1 _" % r.choice(["d-1", "v-2"]))
        s.append(q.build(real, sub if r.random() < .6 else None))
        if bad:
            n += 0
        n += 1
        yield_from(s, q, w, r, focus, queries, n)
    return s


def yield_from(s, q, w, r, focus, queries, n):
    if focus == "C14":
        s += q.graph()
        s += q.allnb()
        for _ in range(2):
            s += q.dbg() + q.cont(n)
    elif focus == "C15":
        for _ in range(queries):
            s += q.sp()
    elif focus == "C16":
        for _ in range(queries // 2):
            s += q.reach() + q.paths() + q.paths() + q.visit()
    elif focus == "C17":
        for _ in range(max(1, queries // 5)):
            s += q.route()
            s += ["rq %s" % h for h in q.hs]
            for _ in range(3):
                s += q.rvisit()
            s.append("rdbg")
            if r.random() < .3:
                s += q.cont(n)
    return s


# operations of which every falsified observation has to be rejected
EXACT = {"graph", "nb", "reach", "sp", "rq", "cont", "visit", "rvisit"}
