from .. import flow
from . import mapgen


class C01(flow.Check):
    id = "C01"
    driver = "mapdrv"
    libs = ["core"]
    trace_module = "MapGraphTrace"

    def models(self, tier):
        return [("MapGraphMC", "MapGraphMC_map" + ("" if tier == "quick" else "_deep"), {"heap": "8g", "workers": 8})]

    def scripts(self, ctx):
        r = ctx.rnd
        cfg = "MapGraphMC_map" + ("" if ctx.quick else "_deep")
        out = mapgen.model_scripts(ctx.printed[cfg], "map", r, 0, 1.0 if ctx.quick else 0.15)
        for i in range(150 if ctx.quick else 2500):
            out.append(mapgen.random_world(r, r.choice([30, 60]), r.random() < 0.6, False, 1))
        return out


CHECK = C01()
