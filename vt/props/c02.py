from .. import flow
from . import mapgen


class C02(flow.Check):
    id = "C02"
    driver = "mapdrv"
    libs = ["core"]
    trace_module = "MapGraphTrace"

    def models(self, tier):
        return [("MapGraphMC", "MapGraphMC_map" + ("" if tier == "quick" else "_deep"), {"heap": "8g", "workers": 8})]

    def scripts(self, ctx):
        r = ctx.rnd
        cfg = "MapGraphMC_map" + ("" if ctx.quick else "_deep")
        out = mapgen.model_scripts(ctx.printed[cfg], "map", r, 2, 0.4 if ctx.quick else 0.1)
        for i in range(150 if ctx.quick else 2500):
            b = r.random() < 0.4
            out.append(mapgen.random_world(r, r.choice([30, 60]), b, (not b) and r.random() < 0.6, 4))
        return out


CHECK = C02()
