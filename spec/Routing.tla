------------------------------ MODULE Routing ------------------------------
(* C14 - C17.  A small world of points, boundary lines, lanelets and areas together with the rules of a participant
   (which elements may be used, between which one may pass or change lanes) and the routing costs; the routing graph
   that these imply; what every query of the graph, of its searches and of routes has to answer.

   A handle is the name of a lanelet ("a"), of a lanelet seen against its direction ("a~") or of an area.
   Costs are integers: 2000 times the cost of the implementation.                                                  *)
EXTENDS Integers, Sequences, FiniteSets, TLC

Big == 99999            \* "infinite" in tables
INF == 1000000000
Range(q) == {q[i] : i \in DOMAIN q}
RECURSIVE Sum(_)
Sum(q) == IF q = << >> THEN 0 ELSE Head(q) + Sum(Tail(q))
RevSeq(q) == [i \in 1..Len(q) |-> q[Len(q) + 1 - i]]
Get(f, x, d) == IF x \in DOMAIN f THEN f[x] ELSE d
Min(S) == CHOOSE x \in S : \A y \in S : x <= y
Abs(x) == IF x < 0 THEN -x ELSE x

Empty == [x \in {} |-> 0]
NoGraph == [ok |-> FALSE]
NoRoute == [ok |-> FALSE]
M0 == [pt |-> Empty, line |-> Empty, llt |-> Empty, lln |-> << >>, area |-> Empty, arn |-> << >>,
       pass |-> Empty, pp |-> Empty, ch |-> Empty, cost |-> Empty, cpair |-> Empty, lcost |-> Empty, speed |-> Empty,
       sub |-> Empty, G |-> NoGraph, gs |-> << >>, R |-> NoRoute]

(* ------------------------------------------------------------------ handles *)
IsInv(h) == SubSeq(h, Len(h), Len(h)) = "~"
Base(h) == IF IsInv(h) THEN SubSeq(h, 1, Len(h) - 1) ELSE h
Rev(h) == IF IsInv(h) THEN Base(h) ELSE h \o "~"
IsArea(M, h) == h \in DOMAIN M.area
LHandles(M) == [i \in 1..2 * Len(M.lln) |-> IF i % 2 = 1 THEN M.lln[(i + 1) \div 2] ELSE M.lln[i \div 2] \o "~"]
Handles(M) == LHandles(M) \o M.arn
Canon(M, S) == SelectSeq(Handles(M), LAMBDA x : x \in S)

(* ------------------------------------------------------------------ boundaries and geometry *)
Flip(b) == <<b[1], 1 - b[2]>>
LeftB(M, h) == IF IsInv(h) THEN Flip(M.llt[Base(h)].r) ELSE M.llt[h].l
RightB(M, h) == IF IsInv(h) THEN Flip(M.llt[Base(h)].l) ELSE M.llt[h].r
Pts(M, b) == IF b[2] = 1 THEN RevSeq(M.line[b[1]]) ELSE M.line[b[1]]
First(M, b) == LET q == M.line[b[1]] IN IF b[2] = 1 THEN q[Len(q)] ELSE q[1]
Last(M, b) == First(M, Flip(b))
Follows(M, a, b) == /\ Last(M, LeftB(M, a)) = First(M, LeftB(M, b))
                    /\ Last(M, RightB(M, a)) = First(M, RightB(M, b))
LeftOf(M, l, r) == RightB(M, l) = LeftB(M, r)       \* l is directly left of r

XY(M, p) == <<M.pt[p][1], M.pt[p][2]>>
(* lanelets are strips of convex quadrangles, areas convex polygons *)
Parts(M, n) ==
  IF IsArea(M, n)
    THEN << LET a == M.area[n]
                ring[i \in 0..Len(a)] == IF i = 0 THEN << >> ELSE LET q == Pts(M, a[i]) IN ring[i - 1] \o SubSeq(q, 1, Len(q) - 1)
            IN [j \in 1..Len(ring[Len(a)]) |-> XY(M, ring[Len(a)][j])] >>
    ELSE LET l == Pts(M, M.llt[n].l) r == Pts(M, M.llt[n].r) IN
         [i \in 1..Len(l) - 1 |-> <<XY(M, l[i]), XY(M, l[i + 1]), XY(M, r[i + 1]), XY(M, r[i])>>]
Height(M, n) == IF IsArea(M, n) THEN M.pt[First(M, M.area[n][1])][3] ELSE M.pt[First(M, M.llt[n].l)][3]
Box(p) == LET X == {p[i][1] : i \in DOMAIN p} Y == {p[i][2] : i \in DOMAIN p} IN
          [x0 |-> Min(X), x1 |-> -Min({-x : x \in X}), y0 |-> Min(Y), y1 |-> -Min({-y : y \in Y})]
(* two convex polygons overlap unless an edge of one of them separates their interiors *)
SeparatesOne(p, q) == \E i \in DOMAIN p :
   LET a == p[i] b == p[(i % Len(p)) + 1] nx == a[2] - b[2] ny == b[1] - a[1]
       P == {nx * c[1] + ny * c[2] : c \in Range(p)} Q == {nx * c[1] + ny * c[2] : c \in Range(q)}
   IN (\A x \in P, y \in Q : x <= y) \/ (\A x \in P, y \in Q : y <= x)
PartsOverlap(p, q) == LET a == Box(p) b == Box(q) IN
   /\ a.x0 < b.x1 /\ b.x0 < a.x1 /\ a.y0 < b.y1 /\ b.y0 < a.y1
   /\ ~SeparatesOne(p, q) /\ ~SeparatesOne(q, p)
Overlap2(geo, m, n) == \E i \in DOMAIN geo[m].parts, j \in DOMAIN geo[n].parts : PartsOverlap(geo[m].parts[i], geo[n].parts[j])
Geo(M, names) == TLCEval([n \in names |-> [parts |-> TLCEval(Parts(M, n)), z |-> Height(M, n)]])
(* height: participants of a height only conflict with what is closer than it; 0 or less: no height given *)
Clash(geo, m, n, height) == Overlap2(geo, m, n) /\ (height <= 0 \/ Abs(geo[m].z - geo[n].z) < height)

ISqrt(x) == CHOOSE n \in 0..2000 : n * n = x
SegLen(M, p, q) == LET a == M.pt[p] b == M.pt[q] IN ISqrt((a[1] - b[1]) * (a[1] - b[1]) + (a[2] - b[2]) * (a[2] - b[2]))
PolyLen(M, q) == Sum([i \in 1..Len(q) - 1 |-> SegLen(M, q[i], q[i + 1])])
(* length of a lanelet: that of its left bound; of an area: its perimeter *)
Length(M, h) == IF IsArea(M, h) THEN Sum([i \in DOMAIN M.area[h] |-> PolyLen(M, Pts(M, M.area[h][i]))])
                ELSE PolyLen(M, Pts(M, LeftB(M, h)))

(* ------------------------------------------------------------------ the rules *)
(* from the table of the script, or (real traffic rules) as recorded *)
TPassable(M, h) == LET p == Get(M.pass, Base(h), 1) IN IF IsInv(h) THEN p > 1 ELSE p > 0
Env(M, kind, o) ==
  IF kind = "t"
    THEN LET ok == TLCEval([h \in Range(Handles(M)) |-> TPassable(M, h)]) IN
         [pass |-> {h \in Range(Handles(M)) : ok[h]}, table |-> TRUE, pp |-> {}, ch |-> {}]
    ELSE [pass |-> Range(o.pass), table |-> FALSE, pp |-> Range(o.pp), ch |-> Range(o.ch)]
MayPass(M, env, a, b) ==
  IF env.table THEN a \in env.pass /\ b \in env.pass
                    /\ Get(M.pp, <<a, b>>, IF IsArea(M, a) \/ IsArea(M, b) THEN 0 ELSE 1) # 0
  ELSE <<a, b>> \in env.pp
MayChange(M, env, a, b) ==
  IF env.table THEN a \in env.pass /\ b \in env.pass /\ Get(M.ch, <<a, b>>, 0) # 0 ELSE <<a, b>> \in env.ch

(* ------------------------------------------------------------------ costs *)
C(kind, lc, mn) == [kind |-> kind, lc |-> lc, min |-> mn]
CostSpecs == ("t" :> C("t", 0, 0)) @@ ("d0" :> C("d", 0, 0)) @@ ("d2" :> C("d", 2, 0)) @@ ("d10" :> C("d", 10, 0))
   @@ ("d1m15" :> C("d", 1, 15)) @@ ("d2m25" :> C("d", 2, 25)) @@ ("d0m40" :> C("d", 0, 40)) @@ ("d-1" :> C("bad", 0, 0))
   @@ ("v0" :> C("v", 0, 0)) @@ ("v2" :> C("v", 2, 0)) @@ ("v5" :> C("v", 5, 0)) @@ ("v-2" :> C("bad", 0, 0))
RECURSIVE Split(_)
Split(str) == LET i == CHOOSE i \in 1..Len(str) + 1 : (i > Len(str) \/ SubSeq(str, i, i) = ",")
                                                      /\ \A j \in 1..i - 1 : SubSeq(str, j, j) # "," IN
              <<SubSeq(str, 1, i - 1)>> \o (IF i >= Len(str) THEN << >> ELSE Split(SubSeq(str, i + 1, Len(str))))
(* value of a table entry *)
TV(c) == IF c = Big THEN INF ELSE 2000 * c
(* speed 0: travelling takes no time at all (no limit) *)
TravelTime(M, len, h) == LET v == Get(M.speed, Base(h), 10) IN IF v = 0 THEN 0 ELSE (len[h] * 1000) \div v
SuccCost(M, c, len, a, b) ==
  CASE c.kind = "t" -> (IF <<a, b>> \in DOMAIN M.cpair THEN TV(M.cpair[<<a, b>>]) ELSE TV(Get(M.cost, a, 1)))
    [] c.kind = "d" -> 1000 * (len[a] + len[b])
    [] OTHER -> TravelTime(M, len, a) + TravelTime(M, len, b)

(* ------------------------------------------------------------------ the graph *)
(* relation of a to b that the geometry and the rules imply, before costs *)
Kind(M, env, geo, height, a, b) ==
  LET aa == IsArea(M, a) ab == IsArea(M, b) IN
  IF a = b THEN "None"
  ELSE IF ~aa /\ ~ab THEN
    IF Follows(M, a, b) /\ MayPass(M, env, a, b) THEN "Successor"
    ELSE IF LeftOf(M, b, a) THEN (IF MayChange(M, env, a, b) THEN "Left" ELSE "AdjacentLeft")
    ELSE IF LeftOf(M, a, b) THEN (IF MayChange(M, env, a, b) THEN "Right" ELSE "AdjacentRight")
    ELSE IF a = Rev(b) THEN "Conflicting"
    ELSE IF Clash(geo, Base(a), Base(b), height) THEN "Conflicting" ELSE "None"
  ELSE IF MayPass(M, env, a, b) THEN "Area"
  ELSE IF aa /\ ab THEN (IF ~MayPass(M, env, b, a) /\ Clash(geo, a, b, height) THEN "Conflicting" ELSE "None")
  ELSE LET ar == IF aa THEN a ELSE b  l == Base(IF aa THEN b ELSE a) IN
       IF (\E x \in {l, Rev(l)} : MayPass(M, env, ar, x) \/ MayPass(M, env, x, ar)) THEN "None"
       ELSE IF Clash(geo, ar, l, height) THEN "Conflicting" ELSE "None"

(* a lane change with a minimal length: what follows on both lanes, as long as both continue in one way only *)
RECURSIVE ChainLen(_, _, _, _, _, _)
ChainLen(succ, len, rel, side, a, b) ==
  len[a] + (IF Cardinality(succ[a]) = 1 /\ Cardinality(succ[b]) = 1
              THEN LET x == CHOOSE x \in succ[a] : TRUE y == CHOOSE y \in succ[b] : TRUE IN
                   IF rel[<<x, y>>] = side THEN ChainLen(succ, len, rel, side, x, y) ELSE 0
              ELSE 0)
LaneCost(M, c, succ, len, rel, side, a, b) ==
  CASE c.kind = "t" -> TV(Get(M.lcost, <<a, b>>, 1))
    [] c.min = 0 -> 2000 * c.lc
    [] OTHER -> IF ChainLen(succ, len, rel, side, a, b) >= c.min THEN 2000 * c.lc ELSE INF
AdjOf(r) == IF r = "Left" THEN "AdjacentLeft" ELSE "AdjacentRight"

Source(M, src) == IF src = "" THEN Range(M.lln) \cup Range(M.arn) ELSE Range(M.sub[src])
Graph(M, env, costs, height, src) ==
  LET L == Source(M, src)
      fw == {h \in L : h \in env.pass}
      V == fw \cup {Rev(h) : h \in {h \in fw : ~IsArea(M, h) /\ Rev(h) \in env.pass}}
      geo == Geo(M, fw)
      rel == TLCEval([p \in V \X V |-> Kind(M, env, geo, height, p[1], p[2])])
      len == TLCEval(IF \A i \in DOMAIN costs : costs[i].kind = "t" THEN [h \in V |-> 0] ELSE [h \in V |-> Length(M, h)])
      pairs == TLCEval({p \in V \X V : rel[p] # "None"})
      K == 0..Len(costs) - 1
      sc == TLCEval([k \in K |-> TLCEval([p \in {p \in pairs : rel[p] \in {"Successor", "Area"}} |-> SuccCost(M, costs[k + 1], len, p[1], p[2])])])
      succ == TLCEval([v \in V |-> {w \in V : rel[<<v, w>>] = "Successor" /\ sc[0][<<v, w>>] < INF}])
      E(k, p) == CASE rel[p] \in {"Successor", "Area"} -> [t |-> p[2], r |-> rel[p], w |-> sc[k][p]]
                   [] rel[p] \in {"Left", "Right"} ->
                        (LET w == LaneCost(M, costs[k + 1], succ, len, rel, rel[p], p[1], p[2]) IN
                         IF w = INF THEN [t |-> p[2], r |-> AdjOf(rel[p]), w |-> 2000] ELSE [t |-> p[2], r |-> rel[p], w |-> w])
                   [] OTHER -> [t |-> p[2], r |-> rel[p], w |-> 2000]
      out == TLCEval([k \in K |-> TLCEval([v \in V |-> {e \in {E(k, p) : p \in {p \in pairs : p[1] = v}} : e.w < INF}])])
      inn == TLCEval([k \in K |-> TLCEval([v \in V |-> {[t |-> u, r |-> e.r, w |-> e.w] : <<u, e>> \in
                      UNION {{<<u, e>> : e \in {e \in out[k][u] : e.t = v}} : u \in V}}])])
  IN [ok |-> TRUE, V |-> V, n |-> Len(costs), out |-> out, inn |-> inn, geo |-> geo, plain |-> (fw = V), L |-> fw]
Negative(G) == \E k \in DOMAIN G.out : \E v \in G.V : \E e \in G.out[k][v] : e.w < 0

Succ == {"Successor"}
Lanes == {"Successor", "Left", "Right"}
Kinds(lc, areas) == (IF lc THEN Lanes ELSE Succ) \cup (IF areas THEN {"Area"} ELSE {})
(* edges of one cost and some relations *)
Out(G, k, kinds) == TLCEval([v \in G.V |-> {e \in G.out[k][v] : e.r \in kinds}])
Inn(G, k, kinds) == TLCEval([v \in G.V |-> {e \in G.inn[k][v] : e.r \in kinds}])
To(S) == {e.t : e \in S}

(* ------------------------------------------------------------------ neighbours *)
RECURSIVE Chain(_, _)
Chain(E, h) == IF E[h] = {} THEN << >> ELSE LET x == (CHOOSE e \in E[h] : TRUE).t IN <<x>> \o Chain(E, x)
RECURSIVE Both(_, _, _, _, _)
(* routable neighbours as far as they go, then adjacent ones, and so on *)
Both(E, F, re, rf, h) ==
  LET a == Chain(E, h)
      m == IF a = << >> THEN h ELSE a[Len(a)]
      b == Chain(F, m)
      z == IF b = << >> THEN m ELSE b[Len(b)] IN
  IF a = << >> /\ b = << >> THEN << >>
  ELSE [i \in DOMAIN a |-> <<a[i], re>>] \o [i \in DOMAIN b |-> <<b[i], rf>>] \o Both(E, F, re, rf, z)
Relations(M, S) == LET q == Canon(M, To(S)) IN [i \in DOMAIN q |-> <<q[i], (CHOOSE e \in S : e.t = q[i]).r>>]
Opt(E) == IF E = {} THEN << >> ELSE <<(CHOOSE e \in E : TRUE).t>>

NB(M, h, k) ==
  LET G == M.G
      none == [ret |-> "ok", fol |-> << >>, folc |-> << >>, folr |-> << >>, folcr |-> << >>, prev |-> << >>, prevc |-> << >>,
               prevr |-> << >>, prevcr |-> << >>, l |-> << >>, al |-> << >>, r |-> << >>, ar |-> << >>, ls |-> << >>, als |-> << >>,
               rs |-> << >>, ars |-> << >>, lrel |-> << >>, rrel |-> << >>, bes |-> <<h>>, conf |-> << >>] IN
  IF h \notin G.V THEN none
  ELSE IF k >= G.n THEN [ret |-> "input"]
  ELSE LET o == G.out[0][h] i == G.inn[0][h] L == Out(G, k, {"Left"}) R == Out(G, k, {"Right"})
           AL == Out(G, k, {"AdjacentLeft"}) AR == Out(G, k, {"AdjacentRight"})
           sel(S, kinds) == {e \in S : e.r \in kinds} IN
    [ret |-> "ok",
     fol |-> Canon(M, To(sel(o, Succ))), folc |-> Canon(M, To(sel(o, Lanes))),
     folr |-> Relations(M, sel(o, Succ)), folcr |-> Relations(M, sel(o, Lanes)),
     prev |-> Canon(M, To(sel(i, Succ))), prevc |-> Canon(M, To(sel(i, Lanes))),
     prevr |-> Relations(M, sel(i, Succ)), prevcr |-> Relations(M, sel(i, Lanes)),
     l |-> Opt(L[h]), al |-> Opt(AL[h]), r |-> Opt(R[h]), ar |-> Opt(AR[h]),
     ls |-> Chain(L, h), als |-> Chain(AL, h), rs |-> Chain(R, h), ars |-> Chain(AR, h),
     lrel |-> Both(L, AL, "Left", "AdjacentLeft", h), rrel |-> Both(R, AR, "Right", "AdjacentRight", h),
     bes |-> RevSeq(Chain(L, h)) \o <<h>> \o Chain(R, h),
     conf |-> Canon(M, To(sel(o, {"Conflicting"})))]

(* relations between all pairs of lanelets; with conflicts: under the first cost that knows the pair *)
RelList(M, conflicting) ==
  LET G == M.G H == SelectSeq(LHandles(M), LAMBDA h : h \in G.V)
      E(a, b) == IF conflicting THEN UNION {{<<k, e.r>> : e \in {e \in G.out[k][a] : e.t = b}} : k \in DOMAIN G.out}
                 ELSE {<<0, e.r>> : e \in {e \in G.out[0][a] : e.t = b /\ e.r # "Conflicting"}}
      row(a) == LET q == SelectSeq(H, LAMBDA b : E(a, b) # {}) IN
                [j \in DOMAIN q |-> <<a, q[j], (CHOOSE x \in E(a, q[j]) : \A y \in E(a, q[j]) : x[1] <= y[1])[2]>>]
      rows[i \in 0..Len(H)] == IF i = 0 THEN << >> ELSE rows[i - 1] \o row(H[i])
  IN rows[Len(H)]

(* the abstract map of the graph: one line per connected pair *)
RelOf(S, b) == IF \E e \in S : e.t = b THEN (CHOOSE e \in S : e.t = b).r ELSE ""
CostOf(S, b) == IF \E e \in S : e.t = b THEN ToString((CHOOSE e \in S : e.t = b).w) ELSE ""
DebugOk(M, k, adj, conf, o) ==
  LET G == M.G
      E == Out(G, k, Lanes \cup {"Area"} \cup (IF adj THEN {"AdjacentLeft", "AdjacentRight"} ELSE {}) \cup (IF conf THEN {"Conflicting"} ELSE {}))
      P == {{u, v} : <<u, v>> \in UNION {{<<u, e.t>> : e \in E[u]} : u \in G.V}} IN
  /\ o.ret = "ok"
  /\ Range(o.pts) = G.V /\ Len(o.pts) = Cardinality(G.V)
  /\ Len(o.ls) = Cardinality(P) /\ {{x[1], x[2]} : x \in Range(o.ls)} = P
  /\ \A x \in Range(o.ls) : /\ x[3] # "" /\ x[3] = RelOf(E[x[1]], x[2]) /\ x[5] = RelOf(E[x[2]], x[1])
                            /\ x[4] = CostOf(E[x[1]], x[2]) /\ x[6] = CostOf(E[x[2]], x[1])

(* ------------------------------------------------------------------ shortest paths *)
RECURSIVE Dij(_, _, _)
Dij(E, d, open) ==
  IF open = {} THEN d
  ELSE LET u == CHOOSE u \in open : \A v \in open : d[u] <= d[v]
           better == {e \in E[u] : d[u] + e.w < d[e.t]}
           nd == TLCEval([v \in DOMAIN d |-> LET S == {e \in better : e.t = v} IN
                          IF S = {} THEN d[v] ELSE d[u] + Min({e.w : e \in S})])
       IN Dij(E, nd, TLCEval((open \ {u}) \cup {e.t : e \in better}))
Dist(E, src) == Dij(E, TLCEval([v \in DOMAIN E |-> IF v = src THEN 0 ELSE INF]), {src})

EdgeCost(E, a, b) == LET S == {e \in E[a] : e.t = b} IN IF S = {} THEN INF ELSE Min({e.w : e \in S})
Connected(E, p) == /\ \A i \in DOMAIN p : p[i] \in DOMAIN E
                   /\ \A i \in 1..Len(p) - 1 : EdgeCost(E, p[i], p[i + 1]) < INF
RECURSIVE SegCost(_, _, _, _)
SegCost(E, p, i, j) == IF i >= j THEN 0 ELSE EdgeCost(E, p[i], p[i + 1]) + SegCost(E, p, i + 1, j)
(* p, from position i on, passes the waypoints w[j..], every leg at minimal cost *)
RECURSIVE Legs(_, _, _, _, _, _)
Legs(E, D, p, w, i, j) ==
  IF j = Len(w) THEN i = Len(p)
  ELSE \E n \in i..Len(p) : p[n] = w[j + 1] /\ SegCost(E, p, i, n) = D[j][w[j + 1]] /\ Legs(E, D, p, w, n, j + 1)

(* which answer: a path, none or a complaint about the cost *)
RECURSIVE Answer(_, _, _, _, _)
Answer(G, k, D, w, j) ==
  IF j = Len(w) THEN "path"
  ELSE IF w[j] \notin G.V \/ w[j + 1] \notin G.V THEN "none"
  ELSE IF k >= G.n THEN "input"
  ELSE IF D[j][w[j + 1]] >= INF THEN "none" ELSE Answer(G, k, D, w, j + 1)
PathOk(E, D, w, p) == /\ p # << >> /\ p[1] = w[1] /\ p[Len(p)] = w[Len(w)]
                      /\ Connected(E, p) /\ Legs(E, D, p, w, 1, 1)
RECURSIVE LaneFrom(_, _, _)
LaneFrom(M, p, i) == IF i < Len(p) /\ Follows(M, p[i], p[i + 1]) THEN <<p[i]>> \o LaneFrom(M, p, i + 1) ELSE <<p[i]>>
Search(M, k, lc, areas, w) ==
  LET G == M.G E == IF k < G.n THEN Out(G, k, Kinds(lc, areas)) ELSE Empty
      D == TLCEval([j \in 1..Len(w) - 1 |-> IF k < G.n /\ w[j] \in G.V THEN Dist(E, w[j]) ELSE Empty])
  IN [E |-> E, D |-> D, ret |-> Answer(G, k, D, w, 1)]
SpOk(M, k, lc, areas, w, o) ==
  LET S == Search(M, k, lc, areas, w) IN
  CASE S.ret = "input" -> o.ret = "input"
    [] S.ret = "none" -> o = [ret |-> "none", path |-> << >>, lanes |-> << >>]
    [] OTHER -> /\ o.ret = "path" /\ PathOk(S.E, S.D, w, o.path)
                /\ o.lanes = IF areas THEN << >> ELSE [i \in DOMAIN o.path |-> LaneFrom(M, o.path, i)]

(* ------------------------------------------------------------------ reachability *)
Reach(M, mode, h, limit, k, lc) ==
  LET G == M.G IN
  IF h \notin G.V THEN [ret |-> "ok", set |-> << >>]
  ELSE IF k >= G.n THEN [ret |-> "input"]
  ELSE LET E == IF mode = "b" THEN Inn(G, k, Kinds(lc, FALSE)) ELSE IF mode = "f" THEN Out(G, k, Kinds(lc, FALSE)) ELSE Out(G, k, Kinds(TRUE, TRUE))
           D == Dist(E, h) IN
       [ret |-> "ok", set |-> Canon(M, {v \in G.V : D[v] <= limit})]

(* ------------------------------------------------------------------ enumeration of paths *)
(* search that stops expanding where the limits are met; amb: two ways of equal cost and different length *)
RECURSIVE Prune(_, _, _, _, _)
Prune(E, T, open, cl, nl) ==
  IF open = {} THEN T
  ELSE LET u == CHOOSE u \in open : \A v \in open : T.d[u] <= T.d[v]
           ok == (cl < 0 \/ T.d[u] < cl) /\ (nl < 0 \/ T.len[u] < nl)
           S == IF ok THEN E[u] ELSE {}
           better == {e \in S : T.d[u] + e.w < T.d[e.t]}
           equal == {e \in S : T.d[u] + e.w = T.d[e.t] /\ T.len[e.t] # T.len[u] + 1 /\ e.t # u}
           up == {e.t : e \in better}
       IN Prune(E, TLCEval([d |-> [v \in DOMAIN T.d |-> IF v \in up THEN T.d[u] + EdgeCost(E, u, v) ELSE T.d[v]],
                    len |-> [v \in DOMAIN T.d |-> IF v \in up THEN T.len[u] + 1 ELSE T.len[v]],
                    amb |-> T.amb \/ equal # {}]), TLCEval((open \ {u}) \cup up), cl, nl)
PathsOk(M, mode, h, cl, nl, k, lc, shorter, o) ==
  LET G == M.G
      E == IF mode = "b" THEN Inn(G, k, Kinds(lc, FALSE)) ELSE Out(G, k, Kinds(lc, mode = "a"))
      T == Prune(E, [d |-> [v \in G.V |-> IF v = h THEN 0 ELSE INF], len |-> [v \in G.V |-> IF v = h THEN 1 ELSE 0], amb |-> FALSE], {h}, cl, nl)
      ps == IF mode = "b" THEN TLCEval([i \in DOMAIN o.paths |-> RevSeq(o.paths[i])]) ELSE o.paths
      steps == UNION {{<<p[i], p[i + 1]>> : i \in 1..Len(p) - 1} : p \in Range(ps)}
      nodes == UNION {Range(p) : p \in Range(ps)}
      ends == {p[Len(p)] : p \in Range(ps)}
      inner == UNION {Range(SubSeq(p, 1, Len(p) - 1)) : p \in Range(ps)}
      reached == {v \in G.V : T.d[v] < INF}
      cost == [v \in nodes |-> LET p == CHOOSE p \in Range(ps) : v \in Range(p) i == CHOOSE i \in DOMAIN p : p[i] = v IN SegCost(E, p, 1, i)]
      len == [v \in nodes |-> LET p == CHOOSE p \in Range(ps) : v \in Range(p) IN CHOOSE i \in DOMAIN p : p[i] = v]
      c == TLCEval(cost) n == TLCEval(len)
      met(v) == ~((cl < 0 \/ c[v] < cl) /\ (nl < 0 \/ n[v] < nl))
      tmet(v) == ~((cl < 0 \/ T.d[v] < cl) /\ (nl < 0 \/ T.len[v] < nl)) IN
  /\ o.ret = "ok"
  /\ \A p \in Range(ps) : p # << >> /\ p[1] = h /\ Connected(E, p)
  (* the paths form a tree and every path has its own end *)
  /\ \A s \in steps, t \in steps : s[2] = t[2] => s = t
  /\ \A s \in steps : s[2] # h
  /\ Cardinality(ends) = Len(ps)
  /\ ends \cap inner = {}
  /\ \A v \in inner : ~met(v)
  /\ (~shorter => \A v \in ends : met(v))
  (* nothing shorter is known inside of the tree *)
  /\ \A v \in inner : \A e \in E[v] : e.t \in nodes => c[e.t] <= c[v] + e.w
  (* everything within the limits is on a path *)
  /\ shorter => /\ h \in nodes
                /\ \A v \in {v \in nodes : ~met(v)} : \A e \in E[v] : e.t \in nodes /\ c[e.t] <= c[v] + e.w
  /\ ~T.amb => /\ \A v \in nodes : c[v] = T.d[v]
               /\ {v \in ends : met(v)} = {v \in reached : tmet(v)}
               /\ shorter => nodes = reached
PathsRet(M, h, cl, nl, k) == IF h \notin M.G.V THEN "empty" ELSE IF k >= M.G.n \/ (cl < 0 /\ nl < 0) THEN "input" ELSE "ok"

(* ------------------------------------------------------------------ visitors *)
Changes == {"Left", "Right"}
VisitOk(E, h, stop, v) ==
  LET at(x) == CHOOSE i \in DOMAIN v : v[i][1] = x IN
  /\ v # << >> /\ v[1] = <<h, h, 0, 1, 0>>
  /\ Cardinality({v[i][1] : i \in DOMAIN v}) = Len(v)
  /\ \A i \in 2..Len(v) : v[i - 1][3] <= v[i][3]
  /\ \A i \in 2..Len(v) : \E j \in 1..i - 1 :
       /\ v[j][1] = v[i][2] /\ v[j][1] \notin stop
       /\ \E e \in E[v[j][1]] : /\ e.t = v[i][1] /\ v[i][3] = v[j][3] + e.w
                                /\ v[i][4] = v[j][4] + 1
                                /\ v[i][5] = v[j][5] + (IF e.r \in Changes THEN 1 ELSE 0)
  /\ \A j \in DOMAIN v : v[j][1] \notin stop =>
       \A e \in E[v[j][1]] : \E i \in DOMAIN v : v[i][1] = e.t /\ v[i][3] <= v[j][3] + e.w
VisitAns(M, mode, h, k, lc, stop, o) ==
  LET G == M.G IN
  IF h \notin G.V THEN o = [ret |-> "ok", v |-> << >>]
  ELSE IF k >= G.n THEN o.ret = "input"
  ELSE o.ret = "ok" /\ VisitOk(IF mode \in {"f", "fa"} THEN Out(G, k, Kinds(lc, mode = "fa")) ELSE Inn(G, k, Kinds(lc, mode = "ba")), h, stop, o.v)

(* ------------------------------------------------------------------ routes *)
RouteKinds(lc) == {"Successor", "Conflicting"} \cup (IF lc THEN {"Left", "Right", "AdjacentLeft", "AdjacentRight"} ELSE {})
Restrict(E, S) == TLCEval([v \in S |-> {e \in E[v] : e.t \in S}])
Only(E, kinds) == TLCEval([v \in DOMAIN E |-> {e \in E[v] : e.r \in kinds}])
RECURSIVE Closure(_, _)
Closure(E, S) == LET T == S \cup UNION {To(E[v]) : v \in S} IN IF T = S THEN S ELSE Closure(E, TLCEval(T))
(* everything one may change to, over one or several lanes *)
Beside(E, v) == Closure(Only(E, {"Left", "Right"}), {v})
RouteOf(M, k, lc, o) ==
  LET S == Range(o.in) G == M.G
      full == Out(G, k, RouteKinds(lc)) back == Inn(G, k, RouteKinds(lc)) IN
  [ok |-> TRUE, in |-> S, sp |-> o.sp, out |-> Restrict(full, S), inn |-> Restrict(back, S),
   conf |-> TLCEval([v \in S |-> {e.t : e \in {e \in full[v] : e.r = "Conflicting"}}])]
(* lanes: what is connected without a lane change, a fork or a merge *)
SameLane(R, u, v) == /\ \E e \in R.out[u] : e.t = v /\ e.r = "Successor"
                     /\ Cardinality({e \in R.out[u] : e.r = "Successor"}) = 1
                     /\ Cardinality({e \in R.inn[v] : e.r = "Successor"}) = 1
NumLanes(R) == LET J == TLCEval([v \in R.in |-> {[t |-> u] : u \in {u \in R.in : SameLane(R, u, v) \/ SameLane(R, v, u)}}]) IN
               Cardinality({Closure(J, {v}) : v \in R.in})
RouteOk(M, k, lc, w, o) ==
  LET S == Search(M, k, lc, FALSE, w) IN
  IF S.ret # "path" THEN o = [ret |-> S.ret]
  ELSE LET G == M.G R == RouteOf(M, k, lc, o) in == Range(o.in) full == Out(G, k, RouteKinds(lc))
           drive == Only(R.out, Lanes) driveb == Only(R.inn, Lanes)
           last == IF w[1] = w[Len(w)] THEN {} ELSE Beside(full, w[Len(w)])
           upto == Closure(TLCEval([v \in in |-> {e \in drive[v] : ~(e.r = "Successor" /\ v \in last)}]), {w[1]}) IN
    /\ o.ret = "ok"
    /\ PathOk(S.E, S.D, w, o.sp)
    /\ Range(o.sp) \subseteq in /\ in \subseteq {v \in G.V : ~IsArea(M, v)}
    /\ o.size = Cardinality(in) /\ {Base(h) : h \in Range(o.sub)} = {Base(h) : h \in in}
    (* every lanelet can be reached from the start and leads to the end without leaving the route *)
    /\ in \subseteq Closure(drive, {w[1]})
    /\ in \subseteq Closure(driveb, {w[Len(w)]})
    (* what may be used instead of the route (up to where it first meets its end) is part of it: lanelets to change to and
       back, and ways around that are nowhere beside or in conflict with it *)
    /\ \A u \in upto : \A e \in full[u] : e.t \notin in =>
         /\ ~(e.r \in Changes /\ \E f \in full[e.t] : f.t = u /\ f.r \in Changes)
         /\ ~(e.r = "Successor" /\ u \notin last
              /\ (\E f \in full[e.t] : f.r = "Successor" /\ f.t \in in)
              /\ (\A f \in full[e.t] : f.t \in in => f.r = "Successor"))
    /\ o.lanes = NumLanes(R)
    /\ o.err = 0
    /\ Range(o.conf) = UNION {R.conf[v] : v \in in}
    /\ Len(o.conf) = Sum([i \in DOMAIN o.in |-> Cardinality(R.conf[o.in[i]])])

RECURSIVE RemLane(_, _, _, _)
RemLane(O, I, start, v) ==
  <<v>> \o (IF Cardinality(O[v]) # 1 THEN << >>
            ELSE LET n == (CHOOSE e \in O[v] : TRUE).t IN
                 IF Cardinality(I[n]) # 1 \/ n = start THEN << >> ELSE RemLane(O, I, start, n))
RECURSIVE LaneBegin(_, _, _, _)
LaneBegin(O, I, start, v) ==
  IF Cardinality(I[v]) # 1 THEN v
  ELSE LET n == (CHOOSE e \in I[v] : TRUE).t IN
       IF Cardinality(O[n]) # 1 THEN v ELSE IF n = start THEN n ELSE LaneBegin(O, I, start, n)
RECURSIVE SideWays(_, _)
SideWays(E, h) == IF E[h] = {} THEN << >> ELSE LET e == CHOOSE e \in E[h] : TRUE IN <<<<e.t, e.r>>>> \o SideWays(E, e.t)
RemPath(p, h) ==
  IF h \notin Range(p) THEN << >>
  ELSE LET i == CHOOSE i \in DOMAIN p : p[i] = h /\ \A j \in 1..i - 1 : p[j] # h IN
       IF Len(p) > 1 /\ p[1] = p[Len(p)] THEN SubSeq(p, i, Len(p) - 1) \o SubSeq(p, 1, i - 1) ELSE SubSeq(p, i, Len(p))
RQ(M, h) ==
  LET R == M.R IN
  IF h \notin R.in
    THEN [in |-> FALSE, fol |-> << >>, folr |-> << >>, prev |-> << >>, prevr |-> << >>, l |-> << >>, r |-> << >>, ls |-> << >>, rs |-> << >>,
          confr |-> << >>, confm |-> << >>, full |-> << >>, rem |-> << >>, rsp |-> << >>]
    ELSE LET O == Only(R.out, Succ) I == Only(R.inn, Succ) L == Only(R.out, {"Left", "AdjacentLeft"}) RR == Only(R.out, {"Right", "AdjacentRight"})
             first(q) == IF q = << >> THEN << >> ELSE <<q[1]>> b == LaneBegin(O, I, h, h) IN
      [in |-> TRUE, fol |-> Canon(M, To(O[h])), folr |-> Relations(M, O[h]), prev |-> Canon(M, To(I[h])), prevr |-> Relations(M, I[h]),
       l |-> first(SideWays(L, h)), r |-> first(SideWays(RR, h)), ls |-> SideWays(L, h), rs |-> SideWays(RR, h),
       confr |-> Canon(M, To(Only(R.out, {"Conflicting"})[h])), confm |-> Canon(M, R.conf[h]),
       full |-> RemLane(O, I, b, b), rem |-> RemLane(O, I, h, h), rsp |-> RemPath(R.sp, h)]
RVisitAns(M, mode, h, stop, o) ==
  IF h \notin M.R.in THEN o = [ret |-> "ok", v |-> << >>]
  ELSE o.ret = "ok" /\ VisitOk(Only(IF mode = "f" THEN M.R.out ELSE M.R.inn, Lanes), h, stop, o.v)
RDebugOk(M, o) ==
  LET R == M.R E == UNION {{<<Base(u), Base(e.t), e.r>> : e \in R.out[u]} : u \in R.in} IN
  /\ Range(o.ls) = E /\ Len(o.ls) = Cardinality(E)
  /\ {p[1] : p \in Range(o.pts)} = {Base(v) : v \in R.in} /\ Len(o.pts) = Cardinality(R.in)
  /\ \A p \in Range(o.pts) : p[2] # "no" <=> p[1] \in {Base(v) : v \in Range(R.sp)}

(* several graphs at once *)
ConfIn(M, h, g, height) ==
  Canon(M, {b \in M.gs[g + 1] : b # h /\ Clash(Geo(M, {b, Base(h)}), b, Base(h), height)})
ContOk(M, h, g, height, o) ==
  IF g >= Len(M.gs) THEN o = [ret |-> "input"]
  ELSE /\ o.ret = "ok" /\ o.one = ConfIn(M, h, g, height)
       /\ o.all = [i \in DOMAIN M.gs |-> ConfIn(M, h, i - 1, height)]
       /\ Range(o.route) = (IF M.R.ok THEN UNION {Range(ConfIn(M, x, g, height)) : x \in M.R.in} ELSE {})
       /\ Cardinality(Range(o.route)) = Len(o.route)

(* ------------------------------------------------------------------ one operation: new state and verdict on the observation *)
Pairs(a, from) == [i \in 1..(Len(a) - from + 1) \div 2 |-> <<a[from + 2 * (i - 1)], a[from + 2 * (i - 1) + 1]>>]
Is(M, out, o) == [st |-> M, ok |-> (out = o), want |-> out]
Ok(M, o) == Is(M, [ret |-> "ok"], o)
Judge(M, ok, o) == [st |-> M, ok |-> ok, want |-> [why |-> "does not satisfy the specification"]]
Set(f, x, v) == (x :> v) @@ f

BuildStep(M, a, o) ==
  LET cs == Split(a[3])
      costs == [i \in DOMAIN cs |-> CostSpecs[cs[i]]]
      env == Env(M, a[1], o) IN
  IF \E i \in DOMAIN costs : costs[i].kind = "bad" THEN [st |-> [M EXCEPT !.R = NoRoute], ok |-> o.ret = "input", want |-> [ret |-> "input"]]
  ELSE LET G == Graph(M, env, costs, a[4], a[5]) IN
       IF Negative(G) THEN [st |-> [M EXCEPT !.R = NoRoute], ok |-> o.ret = "graph", want |-> [ret |-> "graph"]]
       ELSE [st |-> [M EXCEPT !.G = G, !.gs = Append(@, {v \in G.L : ~IsArea(M, v)}), !.R = NoRoute], ok |-> o.ret = "ok", want |-> [ret |-> "ok"]]

Step(M, rec) ==
  LET a == rec.a op == rec.op o == rec.o IN
  CASE op = "reset" -> Ok(M0, o)
    [] op = "pt" -> Ok([M EXCEPT !.pt = Set(@, a[1], <<a[2], a[3], a[4]>>)], o)
    [] op = "line" -> Ok([M EXCEPT !.line = Set(@, a[1], Tail(a))], o)
    [] op = "llt" -> Ok([M EXCEPT !.llt = Set(@, a[1], [l |-> <<a[2], a[3]>>, r |-> <<a[4], a[5]>>]), !.lln = Append(@, a[1])], o)
    [] op = "area" -> Ok([M EXCEPT !.area = Set(@, a[1], Pairs(a, 2)), !.arn = Append(@, a[1])], o)
    [] op = "tag" -> Ok(M, o)
    [] op = "pass" -> Ok([M EXCEPT !.pass = Set(@, a[1], a[2])], o)
    [] op = "pp" -> Ok([M EXCEPT !.pp = Set(@, <<a[1], a[2]>>, a[3])], o)
    [] op = "ch" -> Ok([M EXCEPT !.ch = Set(@, <<a[1], a[2]>>, a[3])], o)
    [] op = "cost" -> Ok([M EXCEPT !.cost = Set(@, a[1], a[2])], o)
    [] op = "cpair" -> Ok([M EXCEPT !.cpair = Set(@, <<a[1], a[2]>>, a[3])], o)
    [] op = "lcost" -> Ok([M EXCEPT !.lcost = Set(@, <<a[1], a[2]>>, a[3])], o)
    [] op = "speed" -> Ok([M EXCEPT !.speed = Set(@, a[1], a[2])], o)
    [] op = "sub" -> Ok([M EXCEPT !.sub = Set(@, a[1], Tail(a))], o)
    [] op = "build" -> (IF "ret" \notin DOMAIN o THEN Judge(M, FALSE, o) ELSE BuildStep(M, a, o))
    [] op = "graph" -> Is(M, [ll |-> Canon(M, {v \in M.G.L : ~IsArea(M, v)}), ar |-> Canon(M, {v \in M.G.L : IsArea(M, v)}), err |-> 0,
                              rel |-> RelList(M, FALSE), relc |-> RelList(M, TRUE)], o)
    [] op = "nb" -> (IF IsArea(M, a[1]) THEN Is(M, [ret |-> "area", conf |-> IF a[1] \in M.G.V THEN Canon(M, {e.t : e \in {e \in M.G.out[0][a[1]] : e.r = "Conflicting"}}) ELSE << >>], o)
                     ELSE Is(M, NB(M, a[1], a[2]), o))
    [] op = "dbg" -> (IF a[1] >= M.G.n THEN Is(M, [ret |-> "input"], o)
                      ELSE Judge(M, "ret" \in DOMAIN o /\ (M.G.plain => DebugOk(M, a[1], a[2] = 1, a[3] = 1, o)), o))
    [] op = "sp" -> Judge(M, "ret" \in DOMAIN o /\ SpOk(M, a[3], a[4] = 1, a[5] = 1, <<a[1]>> \o SubSeq(a, 6, Len(a)) \o <<a[2]>>, o), o)
    [] op = "reach" -> Is(M, Reach(M, a[1], a[2], a[3], a[4], a[5] = 1), o)
    [] op = "paths" -> (LET r == PathsRet(M, a[2], a[3], a[4], a[5]) IN
                        IF r = "empty" THEN Is(M, [ret |-> "ok", paths |-> << >>], o)
                        ELSE IF r = "input" THEN Is(M, [ret |-> "input"], o)
                        ELSE Judge(M, "ret" \in DOMAIN o /\ PathsOk(M, a[1], a[2], a[3], a[4], a[5], a[6] = 1, a[7] = 1, o), o))
    [] op = "visit" -> Judge(M, "ret" \in DOMAIN o /\ VisitAns(M, a[1], a[2], a[3], a[4] = 1, {a[i] : i \in 5..Len(a)}, o), o)
    [] op = "route" -> (IF "ret" \in DOMAIN o /\ RouteOk(M, a[3], a[4] = 1, <<a[1]>> \o SubSeq(a, 5, Len(a)) \o <<a[2]>>, o)
                          THEN [st |-> [M EXCEPT !.R = IF o.ret = "ok" THEN RouteOf(M, a[3], a[4] = 1, o) ELSE NoRoute], ok |-> TRUE, want |-> o]
                          ELSE Judge(M, FALSE, o))
    [] op \in {"rq", "rvisit", "rdbg"} /\ ~M.R.ok -> Is(M, [ret |-> "none"], o)
    [] op = "rq" -> Is(M, RQ(M, a[1]), o)
    [] op = "rdbg" /\ (\E v \in M.R.in : Rev(v) \in M.R.in) -> Is(M, [ret |-> "skip"], o)
    [] op = "rvisit" -> Judge(M, "ret" \in DOMAIN o /\ RVisitAns(M, a[1], a[2], {a[i] : i \in 5..Len(a)}, o), o)
    [] op = "rdbg" -> Judge(M, "ls" \in DOMAIN o /\ RDebugOk(M, o), o)
    [] op = "cont" -> Judge(M, "ret" \in DOMAIN o /\ ContOk(M, a[1], a[2], a[3], o), o)
    [] OTHER -> Judge(M, FALSE, o)
=============================================================================
