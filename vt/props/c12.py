from .. import flow
from ..iogen import Doc, replay


def script(r):
    m = Doc(r, size=r.choice([0, 0, 1, 2]))
    m.fill(r.choice([3, 6, 10, 20]))
    order = lambda: r.choice(["nwr", "rwn", "wrn", "nwr-", "rnw-"])
    if r.random() < .2:
        m.emit("load", order())
        if r.random() < .3:
            m.emit(r.choice(["dump", "osm", "bin"]))
    for _ in range(r.choice([1, 1, 2])):
        m.damages(r.choice([1, 1, 2, 3, 5, 8]))
        m.emit("load", order())
    return ["reset"] + m.s


class C12(flow.Check):
    id = "C12"
    driver = "io"
    libs = ["io"]
    trace_module = "MapDocTrace"
    level_note = ("Exhaustive: a document with a lanelet, an area and a regulatory element damaged in every place (thorough: in every two). Random OSM documents with all kinds of elements, in any order, from which elements and members are removed, re-pointed, re-typed, "
                  "duplicated or incomplete in up to sixteen places.")

    def models(self, tier):
        return [("MapDocMC", "MapDocMC_doc", {"workers": 4, "want_coverage": False})]

    def scripts(self, ctx):
        r = ctx.rnd
        # quick: all documents with one damage, a sample of those with two
        some = lambda e: e["lv"] == 1 or e["op"] == "load" and (e["lv"] == 2 or r.random() < .2)
        return replay(ctx, "MapDocMC_doc", some if ctx.quick else None) + [script(r) for _ in range(900 if ctx.quick else 12000)]

    def corruptible(self, rec):
        return rec["op"] == "load" and len(rec["o"].get("ll", ())) > 0 and not rec["o"]["le"]

    def loose(self, rec, path):
        # directions are only determined for proper geometry
        return path[0] in ("ll", "ar", "we", "le")


CHECK = C12()
