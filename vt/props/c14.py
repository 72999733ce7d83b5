from .. import flow
from . import routegen


class C14(flow.Check):
    id = "C14"
    driver = "routing"
    libs = ["routing"]
    trace_module = "RoutingTrace"
    level_note = ("All transitions of a model over the rules between seven elements (the model checks symmetry of left/right, uniqueness of relations, independence of how boundaries are stored), executed on the real graph; plus random worlds with table rules and with the German/custom traffic rules, full comparison of the graph per cost module, of every neighbourhood query, of the containers of the graph and of the debug maps.")

    def models(self, tier):
        return [("RoutingMC", "RoutingMC_rel", {"heap": "6g", "workers": 4, "want_coverage": False})]

    def scripts(self, ctx):
        r = ctx.rnd
        out = routegen.model_walks(ctx.printed["RoutingMC_rel"], r, routegen.graph_queries, not ctx.quick)
        ctx.printed.clear()
        return out + [routegen.script(r, self.id, real=r.random() < .3) for i in range(200 if ctx.quick else 8000)]

    def corruptible(self, rec):
        return rec["op"] in routegen.EXACT

    def assumptions(self):
        return ["costs of table modules are integers, so sums are exact; worlds are drawn on an integer grid",
                "a boundary has at most one lanelet on each side"]


CHECK = C14()
