"""Random maps (operations of harness/io.cpp) and documents."""

ODDV = ["=#%d" % i for i in range(1, 11)] + ["=", "=a", "=b", "=true", "=no", "=1.5", "=-7", "=lanelet"]
import json
from . import walks


def replay(ctx, model, keep=None):
    """scripts that take the transitions of a model"""
    pr = ctx.printed.pop(model)
    edges = walks.parse(pr)
    setup = next([walks.fmt(e) for e in json.loads(x)["setup"]] for x in pr if isinstance(x, str) and x.startswith('{"setup"'))
    w, n = walks.cover(edges, edges[0]["f"], rnd=ctx.rnd, maxlen=150, keep=keep)
    return [["reset"] + setup + x[1:] for x in w]


KEYS = ["k1", "k2", "name", "#1", "#2", "#3", "#4", "#5", "#6", "#8", "#9", "subtype_x", "id", "ref", "left", "visible"]
RULES = ["traffic_light", "right_of_way", "speed_limit", "traffic_sign", "all_way_stop", "regulatory_element"]


class Ids:
    def __init__(self, r):
        self.r = r
        self.used = {"n": set(), "w": set(), "r": set()}
        self.neg = r.random() < .3
        self.big = r.choice([40, 400, 1600])
        self.shared = r.random() < .4     # the same id in different namespaces

    def new(self, ns):
        r = self.r
        while True:
            x = r.randint(1, self.big) if r.random() < .7 else r.randint(990, 1320)
            if self.neg and r.random() < .3:
                x = -x
            others = set().union(*self.used.values())
            if x in self.used[ns] or (x in others and not self.shared):
                self.big += 5
                continue
            self.used[ns].add(x)
            return x


class Map:
    """a map on a grid: rows of points, horizontal and vertical lines between them, lanelets and areas in between"""

    def __init__(self, r, size=2, valid=True):
        self.r, self.s, self.id, self.valid = r, [], Ids(r), valid
        self.pt, self.ls, self.pg, self.ll, self.ar, self.rg = [], {}, [], [], [], []
        self.line_attr = {}
        self.rel = {}
        self.mems = {}
        self.grid(size)

    def op(self, *a):
        self.s.append(" ".join(str(x) for x in a))

    # -- points and lines
    def point(self, x, y):
        r = self.r
        i = self.id.new("n")
        f = int(r.random() < .25)
        self.op("pt", i, x, y, r.choice([0, 0, 1, 3, -2]), f)
        self.pt.append(i)
        return i

    def line(self, ps):
        i = self.id.new("w")
        self.op(self.r.choice(["ls"] * 6 + ["li"]), i, *ps)
        self.ls[i] = list(ps)
        return i

    def grid(self, size):
        r = self.r
        self.nx, self.ny = r.randint(1, 1 + size) + 1, r.randint(1, 1 + size) + 1
        sx, sy = r.choice([3, 5]), r.choice([3, 4])
        ox, oy = r.choice([0, -7, 100]), r.choice([0, -4, 50])
        turn = r.random() < .5
        G = {}
        for j in range(self.ny):
            for i in range(self.nx):
                x, y = ox + i * sx, oy + j * sy
                G[i, j] = self.point(*((-y, x) if turn else (x, y)))
        self.G = G
        self.H, self.V = {}, {}      # lines between columns (from left to right) and rows (upwards), with the direction they are stored in
        for j in range(self.ny):
            for i in range(self.nx - 1):
                inv = int(r.random() < .5)
                ps = [G[i, j], G[i + 1, j]]
                if r.random() < .3:
                    x0 = ox + i * sx + 1 + r.randint(0, sx - 3)
                    y0 = oy + j * sy
                    ps.insert(1, self.point(*((-y0, x0) if turn else (x0, y0))))
                self.H[i, j] = (self.line(ps[::-1] if inv else ps), inv)
        for j in range(self.ny - 1):
            for i in range(self.nx):
                if r.random() < .8:
                    inv = int(r.random() < .5)
                    ps = [G[i, j], G[i, j + 1]]
                    self.V[i, j] = (self.line(ps[::-1] if inv else ps), inv)
        self.turn, self.sx, self.sy, self.ox, self.oy = turn, sx, sy, ox, oy

    def extra_line(self, n=None):
        return self.line([self.r.choice(self.pt) for _ in range(n or self.r.choice([1, 2, 2, 3]))])

    def polygon(self):
        i = self.id.new("w")
        self.op("pg", i, *[self.r.choice(self.pt) for _ in range(self.r.choice([1, 3, 3, 4]))])
        self.pg.append(i)
        return i

    # -- lanelets and areas
    def lanelet(self):
        r = self.r
        i, j = r.randrange(self.nx - 1), r.randrange(self.ny - 1)
        k = self.id.new("r")
        back = r.random() < .5        # against the rows
        lower, upper = self.H[i, j], self.H[i, j + 1]
        inv = lambda g: (g[0], 1 - g[1])
        l, q = (inv(lower), inv(upper)) if back else (upper, lower)
        c = ()
        if r.random() < .3:
            a, b = self.G[i, j], self.G[i + 1, j]
            # between the bounds, in driving direction
            x0, y0 = self.ox + i * self.sx, self.oy + j * self.sy + 1
            xs = [x0, x0 + 1, x0 + self.sx]
            ps = [self.point(*((-y0, x) if self.turn else (x, y0))) for x in (xs if r.random() < .5 else xs[::2])]
            if back:
                ps.reverse()
            ci = int(r.random() < .4)
            c = (self.line(ps[::-1] if ci else ps), ci)
        if not self.valid and r.random() < .4:
            l, q = (r.choice(list(self.ls)), r.randint(0, 1)), (r.choice(list(self.ls)), r.randint(0, 1))
        self.op("ll", k, *l, *q, *c)
        self.ll.append(k)
        self.mems[k] = 2
        return k

    def area(self):
        """a rectangle of cells, clockwise; sometimes with holes"""
        r = self.r
        cells = [(i, j) for i in range(self.nx - 1) for j in range(self.ny - 1) if (i, j) in self.V and (i + 1, j) in self.V]
        k = self.id.new("r")
        if cells and r.random() < .7:
            i, j = r.choice(cells)
            ring = [(self.V[i, j][0], self.V[i, j][1]), (self.H[i, j + 1][0], self.H[i, j + 1][1]),
                    (self.V[i + 1, j][0], 1 - self.V[i + 1, j][1]), (self.H[i, j][0], 1 - self.H[i, j][1])]
            holes = []
        else:
            # a field of its own
            x0, y0 = r.randint(-50, 50), r.randint(-50, 50)
            ring = self.ring(x0, y0, 12, 10, False)
            holes = [self.ring(x0 + 2, y0 + 2, 3, 4, True)] if r.random() < .6 else []
            if holes and r.random() < .5:
                holes.append(self.ring(x0 + 7, y0 + 3, 2, 2, True))
        if r.random() < .5:
            n = r.randrange(len(ring))
            ring = ring[n:] + ring[:n]
        a = [x for g in ring for x in g]
        for h in holes:
            a += [0, 0] + [x for g in h for x in g]
        self.op("ar", k, *a)
        self.ar.append(k)
        return k

    def ring(self, x, y, w, h, ccw):
        r = self.r
        c = [(x, y), (x, y + h), (x + w, y + h), (x + w, y)]        # clockwise
        if r.random() < .2:
            c.pop(r.randrange(4))
        if ccw:
            c.reverse()
        p = [self.point(*q) for q in c]
        n = len(p)
        how = r.choice(["one", "sides", "two"])
        cuts = {"one": [0], "sides": list(range(n)), "two": sorted(r.sample(range(n), 2))}[how]
        out = []
        for a, b in zip(cuts, cuts[1:] + [cuts[0] + n]):
            ps = [p[i % n] for i in range(a, b + 1)]
            inv = int(r.random() < .5)
            out.append((self.line(ps[::-1] if inv else ps), inv))
        return out

    # -- regulatory elements
    def reg(self):
        r = self.r
        k = self.id.new("r")
        t = r.choice(RULES)
        line = lambda: (r.choice(list(self.ls)), int(r.random() < .3))
        sign = lambda: ("pg", r.choice(self.pg), 0) if self.pg and r.random() < .3 else ("ls",) + line()
        lan = lambda: ("ll", r.choice(self.ll), int(r.random() < .2))
        m = []
        if t == "traffic_light":
            m = [("refers",) + sign() for _ in range(r.choice([1, 2, 3]))]
            if r.random() < .6:
                m.append(("ref_line", "ls") + line())
        elif t == "right_of_way" and self.ll:
            m = [("right_of_way",) + lan() for _ in range(r.choice([1, 2, 3]))] + [("yield",) + lan() for _ in range(r.choice([1, 2]))]
            if r.random() < .6:
                m.append(("ref_line", "ls") + line())
        elif t in ("speed_limit", "traffic_sign"):
            for _ in range(r.choice([1, 1, 2])):
                g = sign()
                if g[1] not in self.line_attr:
                    self.line_attr[g[1]] = 1
                    self.op("at", g[0], g[1], "subtype", r.choice(["=de274", "=#1"]))
                m.append(("refers",) + g)
            m += [("cancels",) + sign() for _ in range(r.choice([0, 1]))]
            m += [(x, "ls") + line() for x in ("ref_line", "cancel_line") if r.random() < .5]
        elif t == "all_way_stop" and self.ll:
            n = r.choice([1, 2, 3])
            m = [("yield",) + lan() for _ in range(n)]
            if r.random() < .6:
                m += [("ref_line", "ls") + line() for _ in range(n)]
            if r.random() < .5:
                m.append(("refers",) + sign())
        else:
            t = "regulatory_element"
            for _ in range(r.choice([0, 1, 3, 5])):
                x = r.choice(["pt", "ls", "pg", "ll", "ar"])
                role = r.choice(["refers", "yield", "a", "b", "#1", "left"])
                if x == "pt":
                    m.append((role, "pt", r.choice(self.pt), 0))
                elif x == "ls":
                    m.append((role, "ls") + line())
                elif x == "pg" and self.pg:
                    m.append((role, "pg", r.choice(self.pg), 0))
                elif x == "ll" and self.ll:
                    m.append((role,) + lan())
                elif x == "ar" and self.ar:
                    m.append((role, "ar", r.choice(self.ar), 0))
        if r.random() < .5:
            r.shuffle(m)
        self.op("rg", k, t, *[x for y in m for x in y])
        self.rg.append(k)
        for _ in range(r.choice([0, 1, 1, 2, 3])):
            o = [("ll", x) for x in self.ll] + [("ar", x) for x in self.ar]
            if o:
                self.use(r.choice(o), k)
        return k

    def use(self, who, k):
        if (who, k) not in self.rel:
            self.rel[who, k] = 1
            self.op("re", who[0], who[1], k)

    def attr(self):
        r = self.r
        c = [("pt", x) for x in self.pt[:6]] + [("ls", x) for x in self.ls] + [("pg", x) for x in self.pg] + \
            [(k, x) for k, l in (("ll", self.ll), ("ar", self.ar), ("rg", self.rg)) for x in l for _ in (0, 1)]
        k, x = r.choice(c)
        key = r.choice(KEYS)
        v = r.choice(ODDV)
        if r.random() < .1:
            key, v = ("type", {"ll": "=lanelet", "ar": "=multipolygon", "rg": "=regulatory_element"}.get(k, "=virtual"))
        if k == "pg" and r.random() < .2:
            key, v = "area", r.choice(["=yes", "=true", "=1"])
        if k == "ls" and r.random() < .1:
            key, v = "area", r.choice(["=no", "=false", "=0", "=maybe", "="])
        self.op("at", k, x, key, v)

    def fill(self, n):
        r = self.r
        for _ in range(n):
            f = r.random()
            if f < .3:
                self.lanelet()
            elif f < .42:
                self.area()
            elif f < .65:
                self.reg()
            elif f < .72:
                self.polygon()
            elif f < .78:
                self.extra_line()
            else:
                self.attr()

    def edit(self):
        """changes that keep the geometry valid"""
        r = self.r
        f = r.random()
        if f < .3 and self.ll:
            self.lanelet()
        elif f < .5:
            self.reg()
        elif f < .6 and self.pt:
            self.attr()
        elif f < .8 and self.rg and (self.ll or self.ar):
            self.use(r.choice([("ll", x) for x in self.ll] + [("ar", x) for x in self.ar]), r.choice(self.rg))
        else:
            self.attr()


TYPE = {"pt": "node", "ls": "way", "pg": "way", "ll": "relation", "ar": "relation"}
NS = {"pt": "n", "ls": "w", "pg": "w", "ll": "r", "ar": "r", "rg": "r"}


class Doc(Map):
    """the same as an OSM document"""

    def __init__(self, r, size=2):
        self.w, self.rels = {}, {}
        super().__init__(r, size)

    def emit(self, *a):
        self.s.append(" ".join(str(x) if x != "" else "_" for x in a))

    def op(self, o, *a):
        r = self.r
        if o == "pt":
            self.emit("dn", "n", *a)
        elif o in ("ls", "li", "pg"):
            self.w[a[0]] = len(a) - 1
            self.emit("dw", "w", *a)
            if o == "pg":
                self.emit("dt", "w", a[0], "area", r.choice(["=yes", "=true", "=1"]))
        elif o in ("ll", "ar", "rg"):
            k = a[0]
            self.rels[k] = []
            self.emit("dr", "r", k)
            ms = []
            if o == "ll":
                ms = [("way", a[1], "left"), ("way", a[3], "right")] + ([("way", a[5], "centerline")] if len(a) > 5 else [])
            elif o == "ar":
                role = "outer"
                for i in range(1, len(a), 2):
                    if a[i] == 0:
                        role = "inner"
                    else:
                        ms.append(("way", a[i], role))
            else:
                ms = [(TYPE[a[i + 1]], a[i + 2], a[i]) for i in range(2, len(a), 4)]
            if r.random() < .5 and o != "rg":
                r.shuffle(ms)
            for m in ms:
                self.member(k, *m)
            self.emit("dt", "r", k, "type", {"ll": "=lanelet", "ar": "=multipolygon", "rg": "=regulatory_element"}[o])
            if o == "rg":
                self.emit("dt", "r", k, "subtype", "=" + a[1])
        elif o == "re":
            self.member(a[1], "relation", a[2], "regulatory_element")
        elif o == "at":
            if a[2] in ("type", "area"):
                return
            self.emit("dt", NS[a[0]], *a[1:])
        else:
            raise Exception(o)

    def member(self, k, t, i, role):
        self.rels[k].append((t, i, role))
        self.emit("dm", "r", k, t, i, role)

    def damage(self):
        r = self.r
        what = r.random()
        ws, rs = list(self.w), list(self.rels)
        rel = r.choice(rs) if rs else None
        if what < .3:
            ns = r.choice("nwwrr")
            c = {"n": self.pt, "w": ws, "r": rs}[ns]
            if not c:
                return
            x = r.choice(c)
            if r.random() < .25:
                if self.dups < 3 and (ns, x) not in self.dup:
                    self.dup.add((ns, x))
                    self.dups += 1
                    self.emit("ddup", ns, x)
                return
            self.emit(r.choice(["ddel", "drm"]), ns, x)
            if ns == "n":
                self.pt.remove(x)
            elif ns == "w":
                del self.w[x]
                self.ls.pop(x, None)
            else:
                del self.rels[x]
        elif what < .65 and rel is not None:
            ms = self.rels[rel]
            if not ms:
                return
            j = r.randrange(len(ms))
            t, i, role = ms[j]
            f = r.random()
            if f < .2:
                self.emit("dum", "r", rel, j + 1)
                del ms[j]
                return
            if f < .3 and r.random() < .5 and i != 0:
                # an element of another type with the same id
                t = r.choice([x for x in ("node", "way") if x != t])
                if t == "way" and i not in self.w:
                    ps = [r.choice(self.pt or [0]) for _ in range(2)]
                    self.emit("dw", "w", i, *ps)
                    self.w[i] = 2
                elif t == "node" and i not in self.pt:
                    self.emit("dn", "n", i, 1, 2, 0, 0)
                    self.pt.append(i)
            elif f < .35:
                i = r.choice([4000001, -77777, 0])
            elif f < .6:
                c = {"node": self.pt, "way": ws, "relation": rs}[r.choice(["node", "way", "relation"])]
                if not c:
                    return
                i = r.choice(c)
                t = "node" if c is self.pt else "way" if c is ws else "relation"
            elif f < .75:
                t = r.choice(["node", "way", "relation", "foo", ""])
            elif f < .85:
                role = r.choice(["left", "right", "centerline", "outer", "inner", "regulatory_element", "refers", "yield", "ref_line", "foo"])
            else:
                i = r.choice(ws or [0])
                t = "way"
            ms[j] = (t, i, role)
            self.emit("dsm", "r", rel, j + 1, t, i, role)
        elif what < .72 and rel is not None and self.rels[rel]:
            t, i, role = r.choice(self.rels[rel])
            if r.random() < .5 and ws:
                i, t = r.choice(ws), "way"
            self.member(rel, t, i, role)
        elif what < .85 and ws:
            w = r.choice(ws)
            n = self.w[w]
            if n and r.random() < .5:
                self.emit("dun", "w", w, r.randint(1, n))
                self.w[w] -= 1
            elif n:
                self.emit("dsn", "w", w, r.randint(1, n), r.choice([r.choice(self.pt or [0]), 5000001, 0]))
        elif what < .9 and ws:
            w = r.choice(ws)
            if r.random() < .5:
                self.emit("dt", "w", w, "area", r.choice(["=yes", "=no", "=true"]))
            else:
                self.emit("dut", "w", w, r.choice(["area", "subtype"]))
        elif rel is not None:
            f = r.random()
            if f < .25:
                self.emit("dut", "r", rel, r.choice(["type", "subtype"]))
            elif f < .7:
                self.emit("dt", "r", rel, "type", r.choice(["=lanelet", "=multipolygon", "=regulatory_element", "=foo", "="]))
            else:
                self.emit("dt", "r", rel, "subtype", "=" + r.choice(RULES + ["foo"]))

    dups = 0

    def damages(self, n):
        self.dup = set()
        for _ in range(n):
            self.damage()
