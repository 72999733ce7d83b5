from .. import flow
from . import rulesgen


class C19(flow.Check):
    id = "C19"
    driver = "rules"
    libs = ["traffic_rules"]
    trace_module = "RulesTrace"
    level_note = ("All transitions of a model of the sources of a speed limit, executed for all classes of road users and two rule "
                  "sets (German, and one with its own regulatory elements and defaults), plus random tagging histories.")

    def models(self, tier):
        return [("RulesMC", "RulesMC_speed", {"heap": "6g"})]

    def scripts(self, ctx):
        r = ctx.rnd
        out = rulesgen.model_walks(ctx.printed["RulesMC_speed"], r)
        ctx.printed.clear()
        out += [rulesgen.random_scene(r, True) for i in range(400 if ctx.quick else 6000)]
        return out

    def corruptible(self, rec):
        # nothing is specified where no source says anything
        return rec["op"] == "lim" and all(x[0] in (50000, 5000, 20000, 130000) for x in rec["o"]["lim"])

    def assumptions(self):
        return ["tagging is legal: overrides on one hierarchy level only",
                "where the tagging specification names no default (e.g. vehicles on walkways) any value is accepted"]


CHECK = C19()
