from .. import flow
from . import routegen


class C15(flow.Check):
    id = "C15"
    driver = "routing"
    libs = ["routing"]
    trace_module = "RoutingTrace"
    level_note = ("All transitions of a cost model (in which the specification's distances agree with an independent definition over simple paths), executed; plus random worlds. Of equally cheap paths any is accepted.")

    def models(self, tier):
        return [("RoutingMC", "RoutingMC_cost", {"heap": "6g", "workers": 4, "want_coverage": False})]

    def scripts(self, ctx):
        r = ctx.rnd
        out = routegen.model_walks(ctx.printed["RoutingMC_cost"], r, routegen.path_queries, not ctx.quick)
        ctx.printed.clear()
        return out + [routegen.script(r, self.id, real=r.random() < .3) for i in range(200 if ctx.quick else 8000)]

    def corruptible(self, rec):
        return rec["op"] in routegen.EXACT

    def assumptions(self):
        return ["costs of table modules are integers, so sums are exact; worlds are drawn on an integer grid",
                "a boundary has at most one lanelet on each side"]


CHECK = C15()
