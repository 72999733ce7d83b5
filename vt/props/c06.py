import itertools
from .. import flow, walks

TEXTS = ["1", "0", "true", "false", "yes", "no", "True", "50", "-2.5", "+7", "007", "5~m/s", "30~km/h", "30kmh", "20~mph", "20mps", "2.~km/h",
         "x", "_", "abc", "no_speed", "9000000000", "-9000000000", "2147483647", "2147483648", "-2147483648", "-2147483649",
         "9223372036854775807", "9223372036854775808", "-9223372036854775808", "0.125", "12.500", "999.999", "1e3", "1e400", "nan", "inf",
         "0x10", "5~furlong", "5x", "5~knots", "~5", "5~", "1,5", "--5", "3.25", "000", "-0", "-0.0", ".5", "5.", "10000000000000000000000",
         "0.1", "1~", "truex", "1.0", "2", "50.0~m/h", "50k/h", "13.8888888889", "road;bus", "4.9406564584124654e-324", "1.7976931348623157e308"]
KINDS = ["b", "i", "id", "d", "v"]
NAMES = ["speed_limit", "foo", "type", "bar", "one_way"]
BOUNDARY = ["0", "1", "-1", "7", "50", "123456", "2147483647", "-2147483648"]
DOUBLES = ["0", "0.1", "1.5", "-2.25", "3.3333333333333335", "1e-7", "123456.789", "1234567.1234567", "1e21", "-0.0", "5e-324", "0.1234567", "50", "1e300", "13.88888888888889"]
VELS = ["0", "1", "13.88888888888889", "8.333333333333334", "27.77777777777778", "0.1", "33.3333", "22.352", "5"]


def make(r, n):
    k = r.choice(KINDS)
    v = {"b": ["true", "false"], "i": BOUNDARY, "id": BOUNDARY + ["9000000000", "9223372036854775807", "-9223372036854775808"],
         "d": DOUBLES + ["%.17g" % r.uniform(-100, 100)], "v": VELS + ["%.17g" % r.uniform(0, 50)]}[k]
    return "make %s %s %s" % (n, k, r.choice(v))


def random_script(r, race):
    s = ["reset"]
    have = set()
    names = r.sample(NAMES, r.choice([1, 2, 3]))
    pool = r.sample(TEXTS, r.choice([2, 4, 8]))
    for _ in range(r.choice([10, 25, 60])):
        n = r.choice(names)
        f = r.random()
        if n not in have or f < .08:
            s.append("new %s %s" % (n, r.choice(pool)) if r.random() < .6 else make(r, n))
            have.add(n)
        elif f < .2:
            s.append("set %s %s" % (n, r.choice(pool)))
        elif f < .32 and len(have) > 1:
            m = r.choice(sorted(have - {n}))
            op = r.choice(["assign", "copy", "copy", "swap", "move"])
            s.append("%s %s %s" % (op, n, m))
            if op == "move":
                have.discard(m)
        elif f < .36:
            s.append("text %s" % n)
        elif f < .46:
            s.append("or %s %s" % (r.choice(NAMES), r.choice(KINDS)))
        else:
            s.append("conv %s %s" % (n, r.choice(KINDS)))
    if race:
        n = r.choice(sorted(have))
        k = lambda: r.choice(["", "", "", "c", "a"]) + r.choice(KINDS)
        s.append("race %s %d %s" % (n, 30, " / ".join(" ".join(k() for _ in range(r.choice([1, 2, 3]))) for _ in range(r.choice([2, 2, 3])))))
    return s


def table(r):
    """every text read as every kind after every other kind was read"""
    out = []
    for t in TEXTS:
        s = ["reset"]
        for k in KINDS:
            s += ["set foo %s" % t if k != "b" else "new foo %s" % t] + ["conv foo %s" % k]
        for a in KINDS:
            for b in KINDS:
                s += ["set foo %s" % t, "conv foo %s" % a, "conv foo %s" % b, "conv foo %s" % a]
        out.append(s)
    return out


def programs(r, n):
    """two threads with up to two readings each"""
    one = [[k] for k in KINDS] + [[a, b] for a in KINDS for b in KINDS]
    ps = [(a, b) for a, b in itertools.combinations_with_replacement(one, 2)]
    r.shuffle(ps)
    out = []
    for i, (a, b) in enumerate(ps[:n]):
        t = ["1", "50", "5~m/s", "true", "x", "9000000000"][i % 6]
        cp = lambda q: " ".join((r.choice("ca") if r.random() < .15 else "") + k for k in q)
        out.append(["reset", "new foo %s" % t] + (["conv foo %s" % r.choice(KINDS)] if i % 2 else []) +
                   ["explore foo 2 %s / %s" % (cp(a), cp(b))])
    for _ in range(n // 10):
        out.append(["reset", make(r, "foo"), "explore foo 2 %s" % " / ".join(r.choice(KINDS) for _ in range(3))])
    return out


class C06(flow.Check):
    id = "C06"
    driver = "c06"
    libs = ["core"]
    variant = "shim"
    flags = ("-include", flow.VERIF + "/harness/shim.h")
    extra_builds = (("tsan", ("-fsanitize=thread", "-DVT_NO_SHIM", "-include", flow.VERIF + "/harness/shim.h"), ("-fsanitize=thread",)),)
    trace_module = "AttributesTrace"
    level_note = ("All histories over the texts and cached readings of two attributes (7 texts), every text of a list of 60 read as every "
                  "kind after every kind; two threads with up to two readings under all schedules with two preemptions; real threads under "
                  "the race detector. The specification parses the usual forms of texts itself.")

    def models(self, tier):
        return [("AttributesMC", "AttributesMC", {"workers": 4, "want_coverage": False})]

    def scripts(self, ctx):
        r = ctx.rnd
        edges = walks.parse(ctx.printed["AttributesMC"])
        ctx.printed.clear()
        w, n = walks.cover(edges, edges[0]["f"], rnd=r, maxlen=200)
        out = [["reset", "new speed_limit x", "new foo x"] + s[1:] for s in w]
        out += table(r)
        out += programs(r, 150 if ctx.quick else 465)
        out += [random_script(r, i % (8 if ctx.quick else 20) == 0) for i in range(400 if ctx.quick else 8000)]
        return out

    def corruptible(self, rec):
        return rec["op"] in ("text", "new", "set")

    def assumptions(self):
        return ["what unusual texts mean (exponents, more than three decimals, signs) is not specified, only that the reading never changes",
                "schedules assume sequentially consistent memory; the race detector sees the schedules that occurred"]


CHECK = C06()
