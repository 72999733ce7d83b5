from .. import flow
from ..iogen import Map


def script(r):
    # geometry does not matter here: half of the maps have bounds that no lanelet should have
    m = Map(r, size=r.choice([0, 1, 2]), valid=r.random() < .5)
    m.fill(r.choice([3, 8, 15, 25]))
    if r.random() < .25:
        m.op("fresh", ".bin")
    m.op("bin")
    # the loaded map goes on: what was shared still is, what was not is not
    for _ in range(r.choice([0, 1, 2])):
        for _ in range(r.choice([1, 4, 8])):
            f = r.random()
            if f < .2:
                m.op("mv", r.choice(m.pt), r.randint(-60, 60), r.randint(-60, 60), r.randint(-3, 3), r.randint(0, 1))
            elif f < .35:
                m.op("push", r.choice(list(m.ls)), r.choice(m.pt))
            elif f < .5 and m.ll:
                m.op(r.choice(["setl", "setr", "setc"]), r.choice(m.ll), r.choice(list(m.ls)), r.randint(0, 1))
            else:
                m.edit()
        m.op(r.choice(["dump", "bin", "bin"]))
    return ["reset"] + m.s


class C13(flow.Check):
    id = "C13"
    driver = "io"
    libs = ["io"]
    trace_module = "MapDocTrace"
    level_note = ("Random maps with all kinds of elements, any attributes, sharing, cycles and inverted references, archived and restored, changed "
                  "through the restored objects and archived again; ids generated in a new process after loading.")

    def scripts(self, ctx):
        r = ctx.rnd
        return [script(r) for _ in range(700 if ctx.quick else 9000)]

    def corruptible(self, rec):
        return rec["op"] in ("bin", "dump") and len(rec["o"].get("ll", ())) > 0


CHECK = C13()
