"""Shared by C01-C03: scripts over worlds of cross-referencing map elements."""
from .. import walks

SETUP = """mkpt p1 1
mkpt p2 2
mkls l1 11 p1
mkls l2 12 p2 p1 p2
mkls l3 13
mkpg g1 11 p2
mkll x1 21 l1 0 l2 1
mkll x2 22 l2 0 l1 0
mkar a1 22 0 l1 0 1 l2 1
mkre r1 31 refers x2 1 ref_line l1 0 yield g1 0 zz a1 0
mkre r2 12 refers a1 0""".split("\n")
ROLES = ["cancels", "ref_line", "refers", "right_of_way", "yield", "zz"]


def model_scripts(printed, variant, rnd, looks, share=1.0):
    """walks covering all transitions; after each operation a few questions are asked"""
    e = walks.parse(printed)
    keep = None if share >= 1 else (lambda x: rnd.random() < share)
    w, n = walks.cover(e, e[0]["f"], rnd=rnd, keep=keep)
    out = []
    names = ["p1", "p2", "l1", "l2", "l3", "g1", "x1", "x2", "a1", "r1", "r2"]
    for s in w:
        o = ["reset"] + SETUP + ["newm m1" if variant == "map" else "news s1"]
        held = set(names)
        maps = {"m1"} if variant == "map" else {"s1"}
        for line in s[1:]:
            o.append(line)
            t = line.split()
            if t[0] == "drop":
                held.discard(t[1])
            elif t[0] == "free":
                maps.discard(t[1])
            elif t[0] == "news":
                maps.add(t[1])
            elif t[0] == "conv":
                maps.add(t[2])
            if maps:
                for i in range(looks):
                    o.append(question(rnd, sorted(held), sorted(maps)))
        out.append(o)
    return out


def question(r, held, maps):
    m = r.choice(maps)
    f = r.random()
    if f < 0.6:
        n = r.choice(held)
        return "use %s %s %d" % (m, n, r.randint(0, 1) if n[0] in "lgx" else 0)
    if f < 0.8:
        return "has %s %s" % (m, r.choice(held))
    if f < 0.9:
        return "pars %s" % m
    return "dump %s" % m


def random_world(r, steps, blank, subs, ask):
    """a random history; blank: elements without id (only together with maps that give them one), subs: submaps in play"""
    s = ["reset"]
    cnt = {k: 0 for k in "plgxar"}
    held = []
    ids = {k: set() for k in "plgxar"}
    maps = ["m1", "m2"]
    for m in maps:
        s.append("newm " + m)
    if subs:
        maps = ["m1", "s1", "s2"]
        s += ["news s1", "news s2"]

    def of(ks):
        return [n for n in held if n[0] in ks]

    def inv():
        return r.randint(0, 1) if r.random() < 0.4 else 0

    def mkid(k):
        if blank and r.random() < 0.4:
            return 0
        if r.random() < 0.15:
            return -r.randint(1, 4)
        other = sorted(set().union(*(v for q, v in ids.items() if q != k)) - ids[k])
        if other and r.random() < 0.4:        # the kinds have separate id spaces
            i = r.choice(other)
            ids[k].add(i)
            return i
        while True:
            i = r.randint(2, 400)
            if i not in ids[k]:
                ids[k].add(i)
                return i

    def new(k):
        cnt[k] += 1
        n = "%s%d" % (k, cnt[k])
        i = mkid(k)
        if k == "p":
            s.append("mkpt %s %d" % (n, i))
        elif k in "lg":
            ps = of("p")
            q = [r.choice(ps) for _ in range(r.choice([0, 1, 2, 2, 3, 4]))] if ps else []
            s.append(("mkls" if k == "l" else "mkpg") + " %s %d %s" % (n, i, " ".join(q)))
        elif k == "x":
            ls = of("l")
            if not ls:
                return
            s.append("mkll %s %d %s %d %s %d" % (n, i, r.choice(ls), inv(), r.choice(ls), inv()))
        elif k == "a":
            ls = of("l")
            if not ls:
                return
            t = ["%d %s %d" % (q, r.choice(ls), inv()) for q in sorted(r.choice([0, 0, 0, 1, 1, 2]) for _ in range(r.randint(1, 5)))]
            # rings have to be consecutive
            ren = {}
            t2 = []
            for x in t:
                a, b = x.split(" ", 1)
                if a != "0":
                    a = str(ren.setdefault(a, len(ren) + 1))
                t2.append(a + " " + b)
            s.append("mkar %s %d %s" % (n, i, " ".join(t2)))
        else:
            q = of("plgxa")
            t = ["%s %s %d" % (r.choice(ROLES), x, inv() if x[0] in "lgx" else 0)
                 for x in (r.choice(q) for _ in range(r.choice([0, 1, 2, 3, 4])) if q)]
            s.append("mkre %s %d %s" % (n, i, " ".join(t)))
        s[-1] = s[-1].rstrip()
        held.append(n)
        if i < 0:          # an id ahead of the generator counts only once its element is in a map
            if r.random() < 0.5 or k in "r":
                s.append("add %s %s 0" % (r.choice(maps), n))
            else:
                s.append("%s %s 0" % (create_head(k), n))
            if r.random() < 0.7:
                fresh(r.randint(1, 4))

    def fresh(c):
        """points without id, put into a map straight away"""
        for _ in range(c):
            cnt["p"] += 1
            n = "p%d" % cnt["p"]
            s.append("mkpt %s 0" % n)
            s.append("add m1 %s 0" % n)
            held.append(n)

    def create_head(k):
        # createMap needs ids everywhere, submaps take only the element itself
        t = {"p": "P", "l": "L", "g": "G", "x": "X", "a": "A"}[k]
        if blank and k != "p":
            return "creates s3 " + t
        return r.choice(["createm m3 ", "creates s3 "]) + t

    for k in "ppplllx":
        new(k)
    for _ in range(steps):
        f = r.random()
        h = of("plgxar")
        if f < 0.22:
            new(r.choice("pplllgxxarr"))
        elif f < 0.24:
            fresh(1)
        elif f < 0.45:
            n = r.choice(h)
            s.append("add %s %s %d" % (r.choice(maps), n, inv() if n[0] in "lgx" else 0))
        elif f < 0.53:
            q = [n for n in of("xa")]
            rs = of("r")
            if q and rs:
                s.append("%s %s %s" % (r.choice(["addre", "addre", "addre", "rmre"]), r.choice(q), r.choice(rs)))
        elif f < 0.58:
            rs, q = of("r"), of("plgxa")
            if rs and q:
                x = r.choice(q)
                s.append("repar %s %s %s %d" % (r.choice(rs), r.choice(ROLES), x, inv() if x[0] in "lgx" else 0))
        elif f < 0.62:
            xs, ls = of("x"), of("l")
            if xs and ls:
                s.append("%s %s %s %d" % (r.choice(["left", "right"]), r.choice(xs), r.choice(ls), inv()))
        elif f < 0.66:
            xs = of("x")
            # a custom centerline needs an id
            ls = [n for n in of("l") if any(z.startswith("mkls %s " % n) and z.split()[2] != "0" for z in s)]
            if xs and ls:
                s.append("setcl %s %s %d" % (r.choice(xs), r.choice(ls), inv()))
        elif f < 0.69:
            ls, ps = of("l"), of("p")
            if ls and ps:
                s.append("lspush %s %s" % (r.choice(ls), r.choice(ps)))
        elif f < 0.73:
            n = r.choice(h)
            if len(h) > 6 and n[0] in ("xar" if r.random() < 0.8 else "plgxar"):
                s.append("drop " + n)
                held.remove(n)
        elif f < 0.78 and (not blank or subs is False):
            if blank:
                t, q = "P", [n for n in of("p") if any(z.startswith("mkpt %s " % n) and z.split()[2] != "0" for z in s)]
            else:
                t = r.choice("PLGXACX")
                q = {"P": of("p"), "L": of("l"), "G": of("g"), "X": of("x"), "A": of("a"), "C": of("xa")}[t]
                if t == "C" and r.random() < 0.5:
                    t = "XA"
            if q:
                q = [r.choice(q) for _ in range(r.randint(1, 3))]
                which = r.choice(["createm m3", "creates s3"])
                # a submap stores what it is given: one orientation per element
                q = list(dict.fromkeys(q))
                s.append("%s %s %s" % (which, t, " ".join("%s %d" % (n, inv() if n[0] in "lgx" else 0) for n in q)))
                if r.random() < 0.6:
                    s.append(question(r, h, [which.split()[1]]))
        elif f < 0.84 and subs and not blank:
            s.append("conv %s m4 %d" % (r.choice([m for m in maps if m[0] == "s"]), r.randint(0, 1)))
            if r.random() < 0.7:
                s.append(question(r, h, ["m4"]))
        elif f < 0.86:
            if subs:
                if r.random() < 0.5:
                    s.append("mvs m1 %s %d" % (r.choice(["s1", "s2"]), r.randint(0, 1)))
                else:
                    m = r.choice(["s1", "s2"])
                    s += ["free " + m, "news " + m]
                    continue
                s.append("newm m1")
            else:
                s.append("mvm m1 m5")
                s.append(question(r, h, ["m5"]))
                s.append("newm m1")
        elif f < 0.87 and "m1" in maps:
            s.append("addnull m1")
        for _ in range(ask):
            if r.random() < 0.5 and of("plgxar"):
                s.append(question(r, of("plgxar"), maps))
    return s
