from .. import flow, walks

KEYS = ["_", "Type", "color", "dynamic", "ele", "location", "one_way", "participant:pedestrian", "participant:vehicle",
        "speed_limit", "subtype", "type", "type2", "zz"]
KNOWN = ["type", "subtype", "one_way", "participant:vehicle", "participant:pedestrian", "speed_limit", "location", "dynamic"]


class C07(flow.Check):
    id = "C07"
    driver = "c07"
    libs = ["core"]
    trace_module = "HybridMapTrace"

    def models(self, tier):
        return [("HybridMapMC", "HybridMapMC", {})]

    def scripts(self, ctx):
        e = walks.parse(ctx.printed["HybridMapMC"])
        w, n = walks.cover(e, e[0]["f"], rnd=ctx.rnd)
        ctx.ncover = n
        out = w
        r = ctx.rnd
        for i in range(250 if ctx.quick else 4000):
            s = ["reset"]
            keys = KEYS if i % 2 else r.sample(KEYS, 5) + ["type"]
            known = [k for k in keys if k in KNOWN] or ["type"]
            for j in range(r.choice([15, 40, 90])):
                x = r.choice("AABBCP")
                f = r.random()
                if f < 0.33:
                    op = r.choice(["insert", "insertHint", "set", "assignFound", "setEnum", "assignFoundEnum"] +
                                  (["setAttr", "setAttrEnum"] * 2 if x == "P" else []))
                    s.append("%s %s %s %s" % (op, x, r.choice(known if op.endswith("Enum") else keys), r.choice(["v1", "v2", "_", "x3"])))
                elif f < 0.80:
                    op = r.choice(["get", "find", "at", "erase", "erase", "eraseIt", "getEnum", "findEnum", "atEnum", "eraseItEnum"] +
                                  (["attr", "attrEnum", "attrOr", "attrOrEnum", "hasAttr", "hasAttrEnum"] if x == "P" else []))
                    s.append("%s %s %s" % (op, x, r.choice(known if op.endswith("Enum") else keys)))
                elif f < 0.97:
                    y = r.choice([q for q in "ABCP" if q != x])
                    op = r.choice(["copyAssign", "moveAssign", "swap", "eq"] +
                                  (["copyCtor", "moveCtor", "rangeCtor"] if "P" not in (x, y) else []))
                    s.append("%s %s %s" % (op, x, y))
                else:
                    s.append("%s %s" % (r.choice(["clear", "selfCopy"]), x))
            out.append(s)
        return out

    def assumptions(self):
        return ["values are opaque strings", "a map that was moved from is only required to be usable (consistent, clearable)"]


CHECK = C07()
CHECK.level_note = ("Every transition of the map specification (2 maps, 3 names) and long random histories over 4 maps and 14 "
                    "names are executed on the real code and each observation is compared by TLC; trusts the driver's projection.")
