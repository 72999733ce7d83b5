import json
from .. import flow, walks


def model_walks(printed, r, every):
    edges = walks.parse(printed)
    setup = next([walks.fmt(e) for e in json.loads(x)["setup"]] for x in printed if isinstance(x, str) and x.startswith('{"setup"'))
    w, n = walks.cover(edges, edges[0]["f"], rnd=r, maxlen=150)
    out = []
    for s in w:
        o = ["reset"] + setup
        for step in s[1:]:
            o.append(step)
            for _ in range(every):
                o.append("probe %d %d" % (r.randint(1, 9), r.randint(0, 1)))
            if r.random() < .5:
                o.append("sprobe %d %d" % (r.randint(1, 4), r.randint(0, 1)))
        out.append(o)
    return out


def random_script(r):
    s = ["reset"]
    nl = r.randint(2, 6)
    pool = r.sample(range(1, 9), r.randint(2, 8))
    P = lambda: r.choice(pool)
    prev = None
    for n in range(1, nl + 1):
        q = [P() for _ in range(r.choice([0, 1, 2, 2, 3, 4]))]
        if prev and r.random() < .6:
            q = [prev] + q
        prev = q[-1] if q else prev
        s.append(("line %d %s" % (n, " ".join(map(str, q)))).rstrip())
    H = lambda n: "%d %d" % (r.randint(1, n), r.random() < .4)
    comps, llts, seqs = 0, 0, 0
    for _ in range(r.choice([15, 40])):
        f = r.random()
        if f < .12:
            comps += 1
            s.append(("comp %d %s" % (comps, " ".join(H(nl) for _ in range(r.choice([0, 1, 2, 2, 3, 4]))))).rstrip())
        elif f < .2 and comps:
            comps += 1
            s.append(("compc %d %s" % (comps, " ".join(H(comps - 1) for _ in range(r.choice([0, 1, 2, 3]))))).rstrip())
        elif f < .28:
            llts += 1
            s.append("llt %d %s %s" % (llts, H(nl), H(nl)))
        elif f < .4 and llts:
            k = r.random()
            l = H(llts)
            if k < .5:
                s.append("%s %s %s" % (r.choice(["setl", "setr"]), l, H(nl)))
            elif k < .8:
                s.append("setc %s %s" % (l, H(nl)))
            else:
                s.append("addre %s %d" % (l.split()[0], r.randint(1, 6)))
        elif f < .47 and llts:
            seqs += 1
            s.append(("seq %d %s" % (seqs, " ".join(H(llts) for _ in range(r.choice([0, 1, 2, 3]))))).rstrip())
        elif f < .52 and seqs:
            seqs += 1
            s.append(("seqs %d %s" % (seqs, " ".join(H(seqs - 1) for _ in range(r.choice([0, 1, 2, 3]))))).rstrip())
        elif f < .7:
            s.append("push %s %d" % (H(nl), P()) if r.random() < .6 else "pop %s" % H(nl))
        elif f < .87 and comps:
            s.append("probe %s" % H(comps))
        elif seqs:
            s.append("sprobe %s" % H(seqs))
    for i in range(1, comps + 1):
        s.append("probe %d %d" % (i, r.randint(0, 1)))
    for i in range(1, seqs + 1):
        s += ["sprobe %d 0" % i, "sprobe %d 1" % i]
    return s


class C22(flow.Check):
    id = "C22"
    driver = "c22"
    libs = ["core"]
    trace_module = "CompSeqTrace"
    level_note = ("All contents of two (thorough: three) line strings up to length 2 (3) under fixed compounds and sequences, every change "
                  "executed and probed in all eight kinds of compounds, plus random compounds, compounds of compounds and sequences.")

    def models(self, tier):
        return [("CompSeqMC", "CompSeqMC" if tier == "quick" else "CompSeqMC3", {"workers": 4, "want_coverage": False, "heap": "6g"})]

    def scripts(self, ctx):
        r = ctx.rnd
        out = model_walks(ctx.printed["CompSeqMC" if ctx.quick else "CompSeqMC3"], r, 3 if ctx.quick else 2)
        ctx.printed.clear()
        return out + [random_script(r) for i in range(400 if ctx.quick else 6000)]

    def assumptions(self):
        return ["sequences are told about changed lanelets with resetCache, as documented",
                "no computed centerline values here (C09): only that the sequence presents the centerlines of its lanelets"]


CHECK = C22()
