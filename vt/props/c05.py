import json
from .. import flow

PARTS = {"p": 1, "l": 3, "g": 4, "t": 7, "a": 6, "r": 4}


def programs(printed):
    out = []
    for x in printed:
        if isinstance(x, str) and x.startswith('{"program"'):
            p = json.loads(x)["program"]
            txt = sorted(" ".join("g" if o[0] == "g" else "r%d" % o[1] for o in t) for t in p)
            out.append(" / ".join(txt))
    return sorted(set(out))


def random_script(r):
    s = ["reset"]
    top = 5
    for _ in range(r.choice([5, 12, 30])):
        f = r.random()

        def new():
            # around what is handed out next
            return top + r.randint(-12, 25)
        if f < .35:
            n = r.choice([1, 2, 5, 12])
            s.append("get %d" % n)
            top += n
        elif f < .55:
            q = [new() for _ in range(r.choice([1, 1, 2, 3]))]
            s.append("reg %s" % " ".join(map(str, q)))
            top = max([top] + q)
        elif f < .93:
            how = r.choice(["map", "map", "map", "sub", "sub", "ctor", "subctor", "create", "subcreate"])
            k = r.choice("plgta" if how in ("create", "subcreate") else "plgtar")
            if r.random() < .3 and (how == "map" or (how == "sub" and k == "p")):
                s.append("new %s %s %d" % (how, k, PARTS[k]))
                top += PARTS[k]
                continue
            b = top + r.randint(1, 20)
            q = list(range(b, b + PARTS[k]))
            r.shuffle(q)
            s.append("add %s %s %s" % (how, k, " ".join(map(str, q))))
            top = max(q) if how in ("map", "create") else max(top, q[0])
        else:
            b = top + r.randint(1, 20)
            k = r.choice("plgtar")
            q = list(range(b, b + PARTS[k]))
            r.shuffle(q)
            s.append("load %s %s %s" % (r.choice(["osm", "bin"]), k, " ".join(map(str, q))))
            top = max(q)
        if r.random() < .5:
            s.append("get 1")
            top += 1
    s.append("get 12")
    return s


def random_program(r):
    n = r.choice([2, 2, 3, 3, 4])
    o = lambda: "g" if r.random() < .5 else "r%d" % r.choice([-3, 0, 1, 2, 3, 4, 6, 900])
    k = {2: 3, 3: 2, 4: 1}[n]
    return "explore %d %s" % (2 if n > 2 else 3, " / ".join(" ".join(o() for _ in range(r.randint(1, k))) for _ in range(n)))


class C05(flow.Check):
    id = "C05"
    driver = "c05"
    libs = ["io", "projection"]
    variant = "shim"
    flags = ("-include", flow.VERIF + "/harness/shim.h")
    trace_module = "IdsTrace"
    level_note = ("All programs of two threads with up to two operations and of three threads with one are executed under every schedule "
                  "with up to three preemptions and one spurious failure of a compare-exchange, on the real code with its atomics turned "
                  "into scheduling points (sequentially consistent memory); every history is shown to be linearizable. Real threads on top.")

    def models(self, tier):
        return [("IdsMC", "IdsMC", {"workers": 4, "heap": "6g"})]

    def scripts(self, ctx):
        r = ctx.rnd
        ps = programs(ctx.printed["IdsMC"])
        ctx.printed.clear()
        out = [["reset", "explore 3 " + p] for p in ps]
        out += [["reset", random_program(r)] for _ in range(60 if ctx.quick else 1500)]
        out += [["reset"] + ["stress %d %d" % (r.choice([2, 3, 4, 8]), 2000)] * 2 + ["get 3"] for _ in range(4 if ctx.quick else 40)]
        out += [random_script(r) for _ in range(300 if ctx.quick else 6000)]
        return out

    def corruptible(self, rec):
        return rec["op"] in ("stress", "load")

    def assumptions(self):
        return ["the exploration of schedules assumes sequentially consistent memory; real threads run on this machine's memory model",
                "ids of elements that are only parts of what is put into a submap are not registered (they are not in the submap)"]


CHECK = C05()
