from .. import flow
from ..iogen import Map, replay


def script(r):
    m = Map(r, size=r.choice([0, 1, 2]), valid=r.random() < .8)
    m.fill(r.choice([3, 8, 15, 25]))
    s = m.s
    steps = ["osm"] if r.random() < .5 else ["osm ele", "osm"]
    if r.random() < .3:
        steps = ["osm up"]
    if r.random() < .3:
        steps.insert(0, "fresh .osm")
    if r.random() < .5:
        # parts of the map that are not written
        for _ in range(r.choice([1, 2])):
            c = [("pt", x) for x in m.pt] + [("ls", x) for x in m.ls] + [("pg", x) for x in m.pg] + \
                [(k, x) for k, l in (("ll", m.ll), ("ar", m.ar), ("rg", m.rg)) for x in l for _ in (0, 1, 2)]
            steps.insert(0, "less " + " ".join("%s %d" % x for x in r.sample(c, min(len(c), r.choice([1, 1, 2, 4])))))
    for x in steps:
        m.op(x)
    # the loaded map goes on: what was shared still is
    if r.random() < .6 and m.valid:
        for _ in range(r.choice([1, 2])):
            for _ in range(r.choice([1, 4, 8])):
                m.edit()
            m.op(r.choice(["dump", "osm", "osm"]))
    return ["reset"] + s


class C11(flow.Check):
    id = "C11"
    driver = "io"
    libs = ["io"]
    trace_module = "MapDocTrace"
    level_note = ("Exhaustive: maps put together from a lanelet, an area, regulatory elements in every order, written, archived and written without each "
                  "of their elements. Random maps with all kinds of elements, references in both directions, shared and cyclic, written and loaded, edited and written "
                  "again; maps from which elements are missing while they are written.")

    def models(self, tier):
        return [("MapDocMC", "MapDocMC_map", {"workers": 4, "want_coverage": False})]

    def scripts(self, ctx):
        r = ctx.rnd
        return replay(ctx, "MapDocMC_map") + [script(r) for _ in range(700 if ctx.quick else 9000)]

    def corruptible(self, rec):
        return rec["op"] == "osm" and len(rec["o"].get("ll", ())) > 0

    def loose(self, rec, path):
        # directions are only determined for proper geometry
        return path[0] in ("ll", "ar", "we", "le")

    def assumptions(self):
        return ["the format cannot store in which direction a regulatory element uses a line string or lanelet"]


CHECK = C11()
