from .. import flow
from . import rulesgen


class C18(flow.Check):
    id = "C18"
    driver = "rules"
    libs = ["traffic_rules"]
    trace_module = "RulesTrace"
    level_note = ("All transitions of two decision models (usage tags, boundary markings) executed for all classes of road users, "
                  "plus random scenes; every query compares all lanelets, areas and pairs in both directions. Only legal tagging "
                  "(one hierarchy level per override) is in scope.")

    def models(self, tier):
        return [("RulesMC", "RulesMC_tags", {"heap": "6g", "workers": 4}), ("RulesMC", "RulesMC_mark", {"heap": "6g", "workers": 4})]

    def scripts(self, ctx):
        r = ctx.rnd
        out = rulesgen.model_walks(ctx.printed["RulesMC_tags"], r) + rulesgen.model_walks(ctx.printed["RulesMC_mark"], r)
        ctx.printed.clear()
        out += [rulesgen.random_scene(r, False) for i in range(300 if ctx.quick else 4000)]
        return out

    def corruptible(self, rec):
        # pairs over areas may be connected by several boundaries that disagree; then either answer is accepted
        return rec["op"] == "q" and not rec["o"]["la"] and not rec["o"]["al"] and not rec["o"]["aa"] or rec["op"] == "fac"

    def assumptions(self):
        return ["tagging is legal: overrides on one hierarchy level only, lane_change:left and :right always together"]


CHECK = C18()
