"""Turns the printed transitions of an exhaustive TLC run into few scripts that together take every transition."""
import json
from collections import defaultdict, deque


def parse(printed):
    edges = []
    for x in printed:
        if isinstance(x, str) and x.startswith('{"f"'):
            edges.append(json.loads(x))
    if edges and "lv" in edges[0]:
        # printed by several workers: make the order reproducible, transitions of the initial state first
        edges.sort(key=lambda e: (e["lv"] != 1, e["f"], e["op"], json.dumps(e["a"])))
    return edges


def fmt(e):
    return " ".join([e["op"]] + [str(a) if a != "" else "_" for a in e["a"]])


def cover(edges, init, reset="reset", maxlen=400, rnd=None, keep=None):
    """greedy edge cover; every walk starts with `reset` in state `init`. keep: optional sampling function edge->bool"""
    out = defaultdict(list)
    nxt = defaultdict(list)
    seen = set()
    for e in edges:
        t = fmt(e)
        if (e["f"], t) in seen:
            continue
        seen.add((e["f"], t))
        nxt[e["f"]].append((t, e["t"]))
        if keep is None or keep(e):
            out[e["f"]].append((t, e["t"]))
    if rnd:
        for k in sorted(out):
            rnd.shuffle(out[k])
    remaining = sum(len(v) for v in out.values())
    total = remaining
    # distinct successor edges for navigation
    nav = {k: list({t: (op, t) for op, t in reversed(v)}.values()) for k, v in nxt.items()}
    walks = []
    cur, st = [reset], init
    while remaining:
        if out.get(st):
            op, t = out[st].pop()
            remaining -= 1
            cur.append(op); st = t
        else:
            # shortest way to a state with uncovered transitions
            prev = {st: None}
            dq = deque([st]); goal = None
            while dq:
                x = dq.popleft()
                if out.get(x):
                    goal = x; break
                for op, t in nav.get(x, ()):
                    if t not in prev:
                        prev[t] = (x, op); dq.append(t)
            if goal is None or len(cur) >= maxlen:
                if len(cur) == 1:
                    break
                walks.append(cur); cur, st = [reset], init
                continue
            path = []
            x = goal
            while prev[x] is not None:
                path.append(prev[x][1]); x = prev[x][0]
            cur.extend(reversed(path)); st = goal
        if len(cur) >= maxlen:
            walks.append(cur); cur, st = [reset], init
    if len(cur) > 1:
        walks.append(cur)
    return walks, total
