from .. import flow, walks

KINDS = ["L3", "L2", "P3", "P2"]


class C08(flow.Check):
    id = "C08"
    driver = "c08"
    libs = ["core"]
    trace_module = "LineSeqTrace"
    level_note = ("All transitions of the sequence specification up to length 2 (quick) or 3 (thorough) in two shared data objects, "
                  "each executed through every kind of handle in turn, plus long random histories; every line compares all views "
                  "of the edited data. Trusts the driver's projection.")

    def models(self, tier):
        return [("LineSeqMC", "LineSeqMC" if tier == "quick" else "LineSeqMC3", {"heap": "6g"})]

    def scripts(self, ctx):
        cfg = "LineSeqMC" if ctx.quick else "LineSeqMC3"
        r = ctx.rnd
        e = walks.parse(ctx.printed[cfg])
        w, n = walks.cover(e, e[0]["f"], rnd=r)
        ctx.printed.clear()
        out = []
        k = 0
        for s in w:
            o = []
            for line in s:
                if " k " in line:
                    line = line.replace(" k ", " %s " % KINDS[k % 4], 1)
                    k += 1 if r.random() < 0.8 else 2
                o.append(line)
            out.append(o)
        for i in range(120 if ctx.quick else 2000):
            s = ["reset"]
            for j in range(r.choice([20, 60])):
                d = r.choice([1, 1, 2, 3])
                k = r.choice(KINDS)
                v = r.randint(0, 1)
                P = lambda: r.randint(1, 8)
                I = lambda: r.randint(0, 9)
                f = r.random()
                h = "%d %s %d" % (d, k, v)
                if f < 0.2:
                    s.append("probe " + h)
                elif f < 0.35:
                    s.append("push %s %d" % (h, P()))
                elif f < 0.42:
                    s.append("pop " + h)
                elif f < 0.52:
                    s.append("ins %s %d %d" % (h, I(), P()))
                elif f < 0.60:
                    s.append("insr %s %d %s" % (h, I(), " ".join(str(P()) for _ in range(r.randint(0, 3)))))
                elif f < 0.63:
                    o = r.choice([x for x in (1, 2, 3) if x != d])
                    s.append("insls %s %d %d %d" % (h, I(), o, r.randint(0, 1)))
                    s.append("resize %s %d" % (h, r.randint(0, 9)))
                elif f < 0.73:
                    s.append("erase %s %d" % (h, I()))
                elif f < 0.83:
                    s.append("%s %s %d %d" % (r.choice(["set", "setit", "setfront", "setback"]), h, I(), P()))
                elif f < 0.87:
                    s.append("resize %s %d" % (h, r.randint(0, 6)))
                elif f < 0.89:
                    s.append("%s %s" % (r.choice(["clear", "reserve"]), h))
                elif f < 0.92:
                    s.append("%s %s" % (r.choice(["reverse", "rotate"]), h))
                elif f < 0.94:
                    s.append("assign %s %s" % (h, " ".join(str(P()) for _ in range(r.randint(0, 4)))))
                else:
                    s.append("mv %s %d %d %d" % (h, I(), r.randint(1, 3), r.randint(-9, 9)))
            out.append([x.rstrip() for x in s])
        return out


CHECK = C08()
