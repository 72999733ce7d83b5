from .. import flow
from ..iogen import replay

CHECKS = ["mapping.bool_tags", "mapping.curvature_too_big", "mapping.duplicated_points", "mapping.mandatory_tags", "mapping.points_too_close",
          "mapping.unknown_tag_value", "mapping.unknown_tags", "routing.graph_is_valid", "custom.map", "custom.rules", "zcustom.graph"]
PARTS = ["vehicle", "pedestrian", "bicycle", "vehicle:car", "vehicle:bus", "vehicle:taxi", "vehicle:emergency", "vehicle:truck"]
BROKEN = ["noref", "twice", "noleft", "noright", "lostline", "noring", "lostring", "openring", "lostrule"]
KINDS = ["point", "linestring", "polygon", "lanelet", "area", "regelem"]
MARK = ["dashed", "dashed_solid", "solid", "solid_dashed", "solid_solid"]
LINETYPES = ["arrow", "bike_marking", "bump", "curbstone", "door", "fence", "gate", "guard_rail", "jersey_barrier", "keepout", "lift_gate", "line_thick",
             "line_thin", "pedestrian_marking", "rail", "road_border", "stop_line", "symbol", "traffic_light", "traffic_sign", "trajectory", "virtual",
             "visualization", "wall", "zebra_marking", "zig-zag"]
LINESUB = MARK + ["high", "low", "left", "left_right", "right", "straight", "straight_left", "straight_right", "red", "red_green", "red_yellow",
                  "red_yellow_green", "de206"]
USE = ["bicycle_lane", "bus_lane", "crosswalk", "emergency_lane", "exit", "highway", "play_street", "road", "shared_walkway", "stairs", "walkway"]
AREA = ["building", "freespace", "keepout", "parking", "traffic_island", "vegetation"]
BOOL = ["yes", "no", "true", "false", "0", "1"]
NOBOOL = ["maybe", "", "2", "Yes", "nope", "TRUE", "yes1", "off"]
# all keys and values occur as words of a message or not at all
KEYS = ["type", "subtype", "location", "one_way", "one_way:vehicle", "participant:vehicle", "participant:pedestrian", "participant:vehicle:car", "dynamic",
        "lane_change", "lane_change:left", "fallback", "temporary", "ele", "width", "height", "color", "name", "region", "speed_limit",
        "speed_limit:bicycle", "speed_limit_mandatory", "sign_type", "foo", "x:type", "my_subtype", "Type", "area", "typ", "on", "participan", "k:one_way"]


def name(r):
    """an expression for a name, or something that is nearly one"""
    c = r.choice(CHECKS)
    for _ in range(r.choice([0, 0, 1, 1, 2, 3])):
        i = r.randrange(len(c)) if c else 0
        j = min(len(c), i + r.choice([1, 1, 2, 4, 30]))
        if any(x in c for x in "[\\*"):
            break
        f = r.random()
        if f < .3:
            c = c[:i] + ".*" + c[j:]
        elif f < .4:
            c = c[:i] + "." + c[i + 1:]
        elif f < .5:
            c = c[:j] + c[i:i + 1] + "*" + c[j:] if c else c
        elif f < .6:
            c = c[:i] + r.choice(["[mrc]", "[^m]", "[a_g]", "\\" + (c[i] if c[i:i + 1] in (".",) else "."), "[aeiou]*"]) + c[i + 1:]
        elif f < .75:
            c = "".join(x.upper() if r.random() < .4 else x for x in c)
        elif f < .85:
            c = c[:i] + c[j:]
        elif f < .9:
            c = c + r.choice(["s", "+", "?", "."])
        else:
            c = c.split(".")[0] + ".*"
    return c


def filt(r):
    f = r.random()
    if f < .2:
        return "="
    if f < .3:
        return "=" + r.choice(CHECKS)
    if f < .4:
        return r.choice(["=.*", "=,", "=,,", "=mapping.*", "=routing.*", "=mapping.*,custom.map", "=mapping.*_tag.*", "=mapping", "=.*tag.*,.*points.*"])
    q = [name(r) for _ in range(r.choice([1, 1, 2, 3, 4]))]
    if r.random() < .2:
        q.insert(r.randrange(len(q) + 1), "")
    return "=" + ",".join(q)


class Scene:
    def __init__(self, r):
        self.r, self.s, self.n = r, [], 100
        self.el = {k: [] for k in KINDS}
        self.pos = {}

    def emit(self, *a):
        self.s.append(" ".join(str(x) for x in a))

    def id(self):
        self.n += self.r.choice([1, 1, 2, 7])
        return self.n

    def pt(self, x, y, z=0):
        i = self.id()
        self.emit("pt", i, x, y, z)
        self.el["point"].append(i)
        self.pos[i] = (x, y, z)
        return i

    def line(self, ps, op="ls"):
        i = self.id()
        self.emit(op, i, *ps)
        self.el["linestring" if op == "ls" else "polygon"].append(i)
        return i

    def walk(self, x, y):
        """points on whole metres, some of them in sharp bends"""
        r, ps = self.r, []
        calm = r.random() < .4
        for _ in range(r.choice([2, 3, 3, 4, 5, 6])):
            ps.append(self.pt(100 * x, 100 * y, r.choice([0, 0, 0, 5, 300])))
            f = r.random()
            if calm:
                x += r.choice([8, 9, 10])
                y += r.choice([-1, 0, 0, 1])
            elif f < .1:
                x, y = x - r.randint(0, 4), y + r.randint(-4, 4)
            else:
                x, y = x + r.randint(0, 6), y + r.choice([0, 0, 1, -1, 2, -2, 3, 4])
        if r.random() < .12:
            i = r.randrange(len(ps))
            ps.insert(i, ps[i])
        if r.random() < .08:
            ps.append(ps[r.randrange(len(ps) - 1)] if len(ps) > 2 else ps[-1])
        return ps

    def lanelet(self, a, ai, b, bi):
        i = self.id()
        self.emit("ll", i, a, ai, b, bi)
        self.el["lanelet"].append(i)
        return i

    def strip(self, n):
        r = self.r
        ls = [self.line(self.walk(r.randint(0, 9), 30 - 4 * k)) for k in range(n)]
        wild = r.random() < .25
        for k in range(n - 1):
            if r.random() < .9:
                a, b = ls[k], ls[k + 1]
                if wild and r.random() < .4:
                    a, b = r.sample(ls, 2)
                if r.random() < .75:
                    self.lanelet(a, 0, b, 0)
                else:
                    self.lanelet(b, 1, a, 1)
        return ls

    def near(self, n):
        r = self.r
        for _ in range(n):
            if not self.pos:
                return
            x, y, z = self.pos[r.choice(list(self.pos))]
            d = r.choice([1, 2, 3, 5, 6])
            f = r.random()
            if f < .2:
                p = (x, y, z + r.choice([-400, 300, 6, 4, 5]))
            else:
                p = (x + r.randint(-d, d), y + r.randint(-d, d), z + (r.randint(-d, d) if r.random() < .6 else 0))
            self.pt(*p)

    def misc(self):
        r = self.r
        p = self.el["point"]
        for _ in range(r.choice([0, 1, 2])):
            q = [r.choice(p) for _ in range(r.choice([1, 2, 3, 4]))] if p else []
            self.line(q)
        for _ in range(r.choice([0, 0, 1, 2])):
            q = [r.choice(p) for _ in range(r.choice([3, 4]))] if p else []
            if q and q[0] != q[-1]:
                self.line(q, "pg")
        for _ in range(r.choice([0, 0, 1])):
            if len(p) > 3:
                a, b, c = r.sample(p, 3)
                i = [self.line(x) for x in ([a, b], [b, c, a])]
                k = self.id()
                self.emit("ar", k, i[0], 0, i[1], 0)
                self.el["area"].append(k)
        for _ in range(r.choice([0, 0, 1, 2])):
            k = self.id()
            self.emit("rg", k)
            self.el["regelem"].append(k)

    def value(self, kind, key):
        r = self.r
        if r.random() < .12:
            return r.choice(["foobar", "", "lanelets", "Road", "solidd", "areas"] + LINETYPES)
        if key == "type":
            return r.choice({"point": ["dot", "end", "pole", "post", "start"], "linestring": LINETYPES + ["line_thin", "line_thick", "curbstone", "virtual"] * 3,
                             "lanelet": ["lanelet"], "area": ["multipolygon"]}.get(kind, ["regulatory_element"]))
        if key == "subtype":
            return r.choice({"linestring": LINESUB, "lanelet": USE * 3 + AREA + ["rail"], "area": USE + AREA + ["rail"]}.get(kind, ["traffic_light", "foobar"]))
        if key == "location":
            return r.choice(["urban", "nonurban", "private", "urban", "rural"])
        if key.split(":")[0] in ("one_way", "participant", "dynamic", "lane_change", "fallback", "temporary"):
            return r.choice(BOOL * 2 + NOBOOL)
        return r.choice(["a1", "50", "maybe", "yes", "red", "foobar"])

    def tag(self, kind, i, key, v):
        self.emit("tag", kind, i, key, "=" + v)

    def tags(self, n):
        r = self.r
        for _ in range(n):
            kind = r.choice(KINDS)
            if not self.el[kind]:
                continue
            i = r.choice(self.el[kind])
            if r.random() < .1:
                self.emit("untag", kind, i, r.choice(KEYS))
                continue
            key = r.choice(KEYS) if r.random() < .6 else r.choice(["type", "subtype", "location", "subtype"])
            self.tag(kind, i, key, self.value(kind, key))

    def proper(self):
        for kind, t in (("linestring", "line_thin"), ("lanelet", "lanelet"), ("area", "multipolygon")):
            for i in self.el[kind]:
                self.tag(kind, i, "type", t)
                self.tag(kind, i, "subtype", {"linestring": self.r.choice(MARK)}.get(kind, "road" if kind == "lanelet" else "parking"))
                if kind != "linestring":
                    self.tag(kind, i, "location", "urban")

    def parts(self):
        r = self.r
        f = r.random()
        if f < .3:
            return ["de", "vehicle"]
        return ["de"] + [r.choice(PARTS) for _ in range(r.choice([1, 1, 2, 3]))]

    def run(self):
        r = self.r
        f = r.random()
        if f < .75:
            self.emit("run", filt(r) if r.random() < .6 else "=", *self.parts())
        else:
            self.emit("file", r.choice(["none"] * 4 + BROKEN + ["xml", "missing"]), filt(r) if r.random() < .5 else "=", *self.parts())

    def cli(self):
        r, a = self.r, []
        pos = False
        for _ in range(r.randint(0, 6)):
            f = r.random()
            if f < .25 and not any(x in a for x in ("-f", "--filter")):
                a += [r.choice(["-f", "--filter"]), r.choice(["=.*", "=mapping.*,routing.*", "=" + name(r)])]
            elif f < .4 and not any(x in a for x in ("-l", "--location")):
                a += [r.choice(["-l", "--location"]), r.choice(["=de", "=nowhere"])]
            elif f < .65:
                a += [r.choice(["-p", "--participants"]), "=" + r.choice(PARTS)]
            elif f < .75 and "--lat" not in a:
                a += ["--lat", r.choice(["=0", "=49", "=8.5", "=-33.125", "=-8"])]
            elif f < .85 and "--lon" not in a:
                a += ["--lon", r.choice(["=0", "=49", "=8.5", "=-33.125", "=-8"])]
            elif f < .9 and "--print" not in a:
                a += ["--print"]
            elif f < .93 and "--help" not in a and "-h" not in a:
                a += [r.choice(["-h", "--help"])]
            elif not pos:
                pos = True
                a += [r.choice(["=map.osm", "=/some/where.bin"])]
        self.emit("cli", *a)


def scene(r):
    s = Scene(r)
    if r.random() < .05:
        s.emit("run", "=", "de", "vehicle")
    for _ in range(r.choice([1, 1, 1, 2])):
        s.strip(r.choice([2, 2, 3, 4]))
    s.misc()
    s.near(r.choice([0, 0, 1, 3, 6]))
    if r.random() < .7:
        s.proper()
    s.run()
    for _ in range(r.choice([1, 2, 4])):
        s.tags(r.choice([1, 2, 5, 12]))
        if r.random() < .3:
            s.near(1)
        s.run()
    return ["reset"] + s.s


def options(r):
    s = Scene(r)
    for _ in range(12):
        s.emit("checks", filt(r))
    for _ in range(4):
        s.cli()
    return ["reset"] + s.s


class C21(flow.Check):
    id = "C21"
    driver = "val"
    libs = ["validation", "io", "projection"]
    trace_module = "ValidationTrace"
    level_note = ("All tag combinations of a small model and all pairs of expressions of a set, executed; random maps with strips of lanelets, bends, doubled and close "
                  "points, any tags, filters, participants, files with defects and command lines.")

    def models(self, tier):
        return [("ValidationMC", "ValidationMC", {"workers": 4, "want_coverage": False})]

    def scripts(self, ctx):
        r = ctx.rnd
        out = []
        for x in replay(ctx, "ValidationMC"):
            out.append([])
            for l in x:
                out[-1].append(l)
                if l.startswith(("tag", "untag")):
                    out[-1].append("run =mapping.*tag.* de vehicle")
        return out + [scene(r) for _ in range(500 if ctx.quick else 8000)] + [options(r) for _ in range(60 if ctx.quick else 1000)]

    def probes(self):
        return [("linestring_subtype", ["reset", "pt 101 0 0 0", "pt 102 1000 0 0", "ls 111 101 102", "tag linestring 111 type =line_thin",
                                        "tag linestring 111 subtype =foo", "run =mapping.unknown_tag_value de vehicle"])]

    def corruptible(self, rec):
        return rec["op"] == "run" and len(rec["o"].get("ent", ())) > 0


CHECK = C21()
