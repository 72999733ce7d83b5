from .. import flow
from . import routegen


class C16(flow.Check):
    id = "C16"
    driver = "routing"
    libs = ["routing"]
    trace_module = "RoutingTrace"
    level_note = ("All transitions of a cost model (in which the specification accepts what a plain Dijkstra search finds), executed; plus random worlds. Path sets are compared with the set of all complete paths of a shortest-path tree; ties between equally cheap paths may be resolved either way.")

    def models(self, tier):
        return [("RoutingMC", "RoutingMC_cost", {"heap": "6g", "workers": 4, "want_coverage": False})]

    def scripts(self, ctx):
        r = ctx.rnd
        out = routegen.model_walks(ctx.printed["RoutingMC_cost"], r, routegen.search_queries, not ctx.quick)
        ctx.printed.clear()
        return out + [routegen.script(r, self.id, real=r.random() < .3) for i in range(200 if ctx.quick else 8000)]

    def corruptible(self, rec):
        return rec["op"] in routegen.EXACT

    def assumptions(self):
        return ["costs of table modules are integers, so sums are exact; worlds are drawn on an integer grid",
                "a boundary has at most one lanelet on each side"]


CHECK = C16()
