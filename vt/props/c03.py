from .. import flow
from . import mapgen


class C03(flow.Check):
    id = "C03"
    driver = "mapdrv"
    libs = ["core"]
    trace_module = "MapGraphTrace"

    def models(self, tier):
        return [("MapGraphMC", "MapGraphMC_sub" + ("" if tier == "quick" else "_deep"), {"heap": "8g", "workers": 8})]

    def scripts(self, ctx):
        r = ctx.rnd
        cfg = "MapGraphMC_sub" + ("" if ctx.quick else "_deep")
        out = mapgen.model_scripts(ctx.printed[cfg], "sub", r, 1, 0.12 if ctx.quick else 0.1)
        for i in range(150 if ctx.quick else 2500):
            out.append(mapgen.random_world(r, r.choice([30, 60]), False, True, 2))
        return out


CHECK = C03()
