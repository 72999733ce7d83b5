from .. import flow, walks

LSN = ["l1", "l2", "l3", "l4", "l1~", "l2~"]
LPN = LSN + ["g1", "g2"]
LLN = ["L1", "L2", "L3", "L1~", "L2~"]
ANY = LPN + LLN + ["a1", "a2", "p1", "p2"]


class C10(flow.Check):
    id = "C10"
    driver = "c10"
    libs = ["core"]
    trace_module = "RegElemTrace"
    level_note = ("All transitions of the regulatory element specification with up to 2 (quick) or 3 (thorough) parameters per "
                  "role, plus random histories over all kinds, both construction ways, and lanelets that expire.")

    def models(self, tier):
        return [("RegElemMC", "RegElemMC2" if tier == "quick" else "RegElemMC3", {"heap": "6g"})]

    def scripts(self, ctx):
        cfg = "RegElemMC2" if ctx.quick else "RegElemMC3"
        r = ctx.rnd
        e = walks.parse(ctx.printed[cfg])
        out, n = walks.cover(e, e[0]["f"], rnd=r)
        ctx.printed.clear()
        for i in range(300 if ctx.quick else 3000):
            out.append(self.history(r))
        return out

    def history(self, r):
        s = ["reset"]
        o = lambda l, p=0.7: r.choice(l) if r.random() < p else "_"
        for t in r.sample(["l1", "l2", "g1", "g2"], r.randint(0, 4)):
            s.append("sub %s %s" % (t, r.choice(["A", "B", "C", "_"])))
        kinds = ["TL", "ROW", "TS", "SL", "SLT", "AWS", "traffic_light", "right_of_way", "traffic_sign", "speed_limit",
                 "all_way_stop", "_", "regulatory_element", "nonsense"]
        kind = None
        for j in range(r.choice([15, 40])):
            f = r.random()
            if kind is None or f < 0.04:
                kind = r.choice(kinds)
                wild = r.random() < 0.15
                L = lambda l, p=0.7: o(ANY if wild else l, p)
                if kind[0].isupper():
                    st = r.choice(["A", "B", "C"]) if kind == "SLT" else r.choice(["A", "C", "_"])
                    # the stop lines of an all way stop mostly match its lanelets
                    p = r.choice([0, 1, 0.7])
                    y = [o(LLN, 0.9), o(LLN, 0.7)]
                    fl = [("_" if y[k] == "_" and r.random() < .9 else o(LSN, p)) for k in (0, 1)]
                    s.append("mk %s %s %s %s %s %s %s %s %s %s %s %s %s _ %s %s %s" % (
                        kind, o(LPN), o(LPN, .5), fl[0], fl[1], y[0], y[1], o(LLN, .9), o(LLN), o(LPN, .5), o(LPN, .3),
                        o(LSN, .5), o(LSN, .3), st, r.choice(["A", "B", "_"]), r.choice(["A", "C", "_"])))
                    # without a type of its own no sign gets a type: keep the rejected constructions free of side effects
                    a = s[-1].split()
                    if kind in ("TS", "SL") and a[15] == "_":
                        s[-1] = " ".join(a[:15] + ["C"] + a[16:])
                else:
                    # (stop lines of an all way stop are line strings)
                    s.append("fac %s %s %s %s %s %s %s %s %s %s %s %s %s %s %s _ _" % (
                        kind, L(LPN), L(LPN, .5), *[(o if kind == "all_way_stop" else L)(LSN, q) for q in (.6, .3)],
                        L(LLN), L(LLN, .5), L(LLN, .3), L(LLN, .2), L(LPN, .5), L(LPN, .3), L(LSN, .5), L(LSN, .3),
                        o(ANY, .2), r.choice(["A", "C", "_"])))
            elif f < 0.5:
                s.append("%s %s %s" % (r.choice(["add", "rem", "add"]),
                                       r.choice(["refers", "refers", "ref_line", "yield", "right_of_way", "cancel_line"]),
                                       r.choice(LPN + LLN)))
            elif f < 0.55:
                s.append("rem cancels " + r.choice(LPN))
            elif f < 0.62:
                s.append("addcanc %s %s %s" % (r.choice("ABC_"), o(LPN), o(LPN)))
            elif f < 0.68:
                s.append(r.choice(["setstop " + r.choice(LSN), "rmstop"]))
            elif f < 0.80:
                s.append("addaws %s %s" % (r.choice(LLN), o(LSN, 0.6)))
            elif f < 0.88:
                s.append("remaws " + r.choice(LLN))
            elif f < 0.90:
                s.append("kill " + r.choice(["L1", "L2", "L3"]))
            elif f < 0.93:
                s.append("sub %s %s" % (r.choice(["l1", "l2", "g1", "g2"]), r.choice("ABC_")))
            else:
                op = r.choice(["gadd", "gadde"])
                ro = ["refers", "ref_line", "yield", "cancels"] + (["foo"] if op == "gadd" else [])
                s.append("%s %s %s" % (op, r.choice(ro), r.choice(ANY)))
        return s

    def assumptions(self):
        return ["polygons are referenced forward only", "the driver maps primitives to names by their ids"]


CHECK = C10()
