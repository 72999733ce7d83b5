"""Scripts for the traffic rules: transitions of the models and random scenes with legal tagging."""
import json
from .. import walks

PARTS = ["vehicle", "vehicle:car", "vehicle:car:electric", "vehicle:car:combustion", "vehicle:bus", "vehicle:truck",
         "vehicle:taxi", "vehicle:motorcycle", "vehicle:emergency", "pedestrian", "bicycle", "train"]
DE = PARTS[:-1]
TYPES = ["road", "highway", "bicycle_lane", "play_street", "emergency_lane", "exit", "bus_lane", "walkway", "crosswalk", "stairs",
         "shared_walkway", "parking", "freespace"]
SPEEDS = ["50", "50km/h", "50#km/h", "50kmh", "50#kmh", "50.0", "20", "20#km/h", "15", "15#kmh", "80", "80#km/h", "80km/h",
          "10#m/s", "10m/s", "10mps", "10#mps", "30#mph", "30mph", "12.5", "12.5#km/h", "7"]
SIGNS = ["de274", "de274-5", "de274-10", "de274-15", "de274-20", "de274-30", "de274-40", "de274-50", "de274-60", "de274-70",
         "de274-80", "de274-90", "de274-100", "de274-110", "de274-120", "de274-130", "de274_1", "de274_1-20", "de310",
         "50", "10#m/s", "30#mph", "nonsense", "de999"]
YES = ["yes", "true", "1"]
NO = ["no", "false", "0"]


def setups(printed):
    for x in printed:
        if isinstance(x, str) and x.startswith('{"setup"'):
            d = json.loads(x)
            return [[walks.fmt(e) for e in d[k]] for k in ("setup", "flipped")]
    raise RuntimeError("no setup printed")


def model_walks(printed, r):
    edges = walks.parse(printed)
    su = setups(printed)
    out = []
    for flip, first in ((0, "p3"), (1, "p4")):
        e = [x for x in edges if x["i"] == first]
        if not e:
            continue
        w, n = walks.cover(e, e[0]["f"], rnd=r)
        out += [[s[0]] + su[flip] + s[1:] for s in w]
    return out


def level_chain(p):
    c = p.split(":")
    return [":".join(c[:i + 1]) for i in range(len(c))]


def conflict(a, b):
    """two levels that would both match one participant must not be tagged together"""
    return a != b and (a in level_chain(b) or b in level_chain(a))


class Scene:
    """random strip of lanelets with areas around; keeps the tagging legal"""

    def __init__(self, r):
        self.r = r
        self.s = ["reset"]
        self.tags = {}
        self.lines, self.llts, self.areas = [], [], []
        self.re = {}
        self.attached = {}
        rows = r.randint(1, 3)      # columns of points
        lanes = r.randint(1, 3)
        grid = {}
        n = [0]

        def line(pts):
            n[0] += 1
            nm = "l%d" % n[0]
            inv = r.random() < 0.4
            self.s.append("line %s %s" % (nm, " ".join(reversed(pts) if inv else pts)))
            self.lines.append(nm)
            self.tags[nm] = {}
            return (nm, 1 if inv else 0)        # handle that sees the points in the given order
        flip = lambda h: (h[0], 1 - h[1])
        self.flip = flip
        P = lambda i, j: "p%d_%d" % (i, j)
        B = {}
        for i in range(rows):
            for j in range(lanes + 1):
                pts = [P(i, j)] + (["m%d_%d" % (i, j)] if r.random() < .3 else []) + [P(i + 1, j)]
                B[i, j] = line(pts)
        letters = iter("ABCDEFGHIJK")
        for i in range(rows):
            for j in range(lanes):
                if r.random() < 0.12:
                    continue
                nm = next(letters)
                l, rr = B[i, j], B[i, j + 1]
                if r.random() < 0.25:       # opposite direction
                    l, rr = flip(rr), flip(l)
                self.s.append("llt %s %s %d %s %d" % (nm, l[0], l[1], rr[0], rr[1]))
                self.llts.append(nm)
        names = iter(["W", "X", "Y", "Z"])

        def area(hs):
            nm = next(names)
            k = r.randrange(len(hs))
            hs = hs[k:] + hs[:k]
            self.s.append("area %s %s" % (nm, " ".join("%s %d" % h for h in hs)))
            self.areas.append(nm)
        # left of a lane in row 0 (driving "up", left is lower j): clockwise ring has the shared line downwards
        if r.random() < 0.7:
            o = line([P(0, 0), "a1", P(1, 0)])
            area([flip(B[0, 0]), o])
            if r.random() < .5 and self.r.random() < 2:
                area([flip(o), line([P(0, 0), "a9", P(1, 0)])])
        if r.random() < 0.5:
            area([B[0, lanes], line([P(1, lanes), "a2", P(0, lanes)])])
        if r.random() < 0.7:
            j = r.randrange(lanes)
            top = line([P(rows, j + 1), P(rows, j)])
            area([top, line([P(rows, j), "a3", P(rows, j + 1)])])
        if r.random() < 0.4 and len(self.areas) < 4:
            j = r.randrange(lanes)
            bot = line([P(0, j), P(0, j + 1)])
            area([bot, line([P(0, j + 1), "a4", P(0, j)])])
        for x in self.llts + self.areas:
            self.tags[x] = {}
            self.attached[x] = []

    def tag(self, o, k, v):
        self.s.append("tag %s %s %s" % (o, k, v or "_"))
        if v:
            self.tags[o][k] = v
        else:
            self.tags[o].pop(k, None)

    def mark(self):
        r = self.r
        o = r.choice(self.lines)
        t = self.tags[o]
        f = r.random()
        if f < .35:
            self.tag(o, "type", r.choice(["line_thin", "line_thick", "line_thin", "curbstone", "virtual", "fence", ""]))
        elif f < .75:
            self.tag(o, "subtype", r.choice(["solid", "dashed", "dashed_solid", "solid_dashed", "low", "high", "solid_solid", ""]))
        elif f < .87:
            if "lane_change:left" in t:
                self.tag(o, "lane_change:left", ""); self.tag(o, "lane_change:right", "")
            self.tag(o, "lane_change", r.choice(YES + NO + [""]))
        else:
            if "lane_change" in t:
                self.tag(o, "lane_change", "")
            if r.random() < .3:
                self.tag(o, "lane_change:left", ""); self.tag(o, "lane_change:right", "")
            else:
                self.tag(o, "lane_change:left", r.choice(YES + NO)); self.tag(o, "lane_change:right", r.choice(YES + NO))

    def override(self, o, what, value, both=True):
        """what:level = value, with conflicting tags removed first"""
        r = self.r
        lv = r.choice(PARTS)
        for k in list(self.tags[o]):
            if k.startswith(what + ":") and conflict(k[len(what) + 1:], lv):
                self.tag(o, k, "")
        if not both and what in self.tags[o]:
            self.tag(o, what, "")
        self.tag(o, what + ":" + lv, value)

    def usage(self):
        r = self.r
        o = r.choice(self.llts + self.areas) if self.llts + self.areas else None
        if o is None:
            return
        f = r.random()
        if f < .4:
            self.tag(o, "subtype", r.choice(TYPES + ["road", "walkway", ""]))
        elif f < .65:
            self.override(o, "participant", r.choice(YES + NO + [""]))
        elif f < .8:
            self.override(o, "one_way", r.choice(YES + NO + [""]), both=False)
        else:
            for k in list(self.tags[o]):
                if k.startswith("one_way:"):
                    self.tag(o, k, "")
            self.tag(o, "one_way", r.choice(YES + NO + ["", "no"]))

    def regelem(self, speed):
        r = self.r
        if len(self.re) < 4 and r.random() < .5:
            n = "r%d" % (len(self.re) + 1)
            sign = r.choice(SIGNS) if r.random() < (.7 if speed else .1) else ""
            self.s.append("re %s %s" % (n, sign or "_"))
            self.re[n] = sign
            self.tags[n] = {}
            return
        if not self.re:
            return
        n = r.choice(sorted(self.re))
        obj = self.llts + self.areas
        if r.random() < .5 and self.re[n] == "":
            k = r.choice(["allow", "dynamic", "limit", "must"])
            self.tag(n, k, r.choice(SPEEDS) if k == "limit" else r.choice(YES + NO))
        elif obj:
            o = r.choice(obj)
            if n in self.attached[o]:
                self.s.append("remre %s %s" % (o, n)); self.attached[o].remove(n)
            else:
                self.s.append("addre %s %s" % (o, n)); self.attached[o].append(n)

    def speed(self):
        r = self.r
        if not self.llts + self.areas:
            return
        o = r.choice(self.llts + self.areas)
        f = r.random()
        if f < .2:
            self.tag(o, "location", r.choice(["urban", "nonurban", ""]))
        elif f < .4:
            self.tag(o, "subtype", r.choice(TYPES[:7] + ["", "road", "highway"]))
        elif f < .6:
            self.tag(o, "speed_limit", r.choice(SPEEDS + ["", "", ""]))
        elif f < .8:
            self.override(o, "speed_limit", r.choice(SPEEDS + ["", "", ""]))
        elif f < .9:
            self.tag(o, "speed_limit_mandatory", r.choice(YES + NO + [""]))
        else:
            self.override(o, "speed_limit_mandatory", r.choice(YES + NO + [""]))


def random_scene(r, speed):
    sc = Scene(r)
    for k in range(r.choice([10, 30])):
        f = r.random()
        if speed:
            sc.speed() if f < .8 else sc.regelem(True)
        else:
            sc.mark() if f < .45 else sc.usage() if f < .9 else sc.regelem(False)
        if k % 3 == 2:
            kind = r.choice(["de", "de", "cu"])
            p = r.choice(DE + ["vehicle", "pedestrian", "bicycle", "vehicle:car"] if kind == "de" else PARTS)
            sc.s.append(("lim" if speed else "q") + " %s %s" % (kind, p))
            if r.random() < .05:
                sc.s.append("fac %s %s" % (r.choice(["de", "de", "fr"]), r.choice(PARTS)))
    return sc.s
