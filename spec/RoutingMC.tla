---------------------------- MODULE RoutingMC ----------------------------
(* exhaustive: a small road (two lanes over two sections, a diagonal connection, a crossing road on a bridge, an area beside it)
   under all combinations of some rules ("rel") or costs ("cost"); all changes of one rule or cost are the transitions *)
EXTENDS Routing, Json, TLCExt
CONSTANTS Mode
VARIABLES s, last
vars == <<s, last>>
O(op, a) == [op |-> op, a |-> a]
Setup == <<
   O("pt", <<"p00", 0, 0, 0>>), O("pt", <<"p10", 8, 0, 0>>), O("pt", <<"p20", 16, 0, 0>>),
   O("pt", <<"p01", 0, -6, 0>>), O("pt", <<"p11", 8, -6, 0>>), O("pt", <<"p21", 16, -6, 0>>),
   O("pt", <<"p02", 0, -12, 0>>), O("pt", <<"p12", 8, -12, 0>>), O("pt", <<"p22", 16, -12, 0>>),
   O("pt", <<"q1", 2, 4, 3>>), O("pt", <<"q2", 2, -16, 3>>), O("pt", <<"q3", 4, 4, 3>>), O("pt", <<"q4", 4, -16, 3>>),
   O("pt", <<"r1", 16, 4, 0>>), O("pt", <<"r2", 8, 4, 0>>),
   O("line", <<"u1", "p00", "p10">>), O("line", <<"u2", "p20", "p10">>), O("line", <<"m1", "p01", "p11">>), O("line", <<"m2", "p11", "p21">>),
   O("line", <<"w1", "p12", "p02">>), O("line", <<"w2", "p12", "p22">>), O("line", <<"c1", "p10", "p21">>), O("line", <<"c2", "p11", "p22">>),
   O("line", <<"x1", "q1", "q2">>), O("line", <<"x2", "q3", "q4">>), O("line", <<"e1", "p20", "r1", "r2", "p10">>),
   O("llt", <<"a1", "u1", 0, "m1", 0>>), O("llt", <<"a2", "u2", 1, "m2", 0>>), O("llt", <<"b1", "m1", 0, "w1", 1>>), O("llt", <<"b2", "m2", 0, "w2", 0>>),
   O("llt", <<"c", "c1", 0, "c2", 0>>), O("llt", <<"x", "x2", 0, "x1", 0>>), O("area", <<"P", "u2", 0, "e1", 1>>) >>
  \o (IF Mode = "rel" THEN << O("pass", <<"a1", 1>>), O("pass", <<"b1", 1>>), O("pass", <<"x", 1>>), O("ch", <<"a1", "b1", 0>>), O("ch", <<"b1", "a1", 0>>),
                             O("ch", <<"b1~", "a1~", 0>>), O("pp", <<"a2", "P", 0>>), O("pp", <<"a1", "c", 1>>) >>
      ELSE << O("pass", <<"a1", 2>>), O("ch", <<"a1", "b1", 1>>), O("ch", <<"b1", "a1", 0>>), O("ch", <<"a2", "b2", 1>>), O("ch", <<"b2", "a2", 1>>), O("pp", <<"a1", "P", 1>>), O("pp", <<"P", "a2", 1>>),
              O("cost", <<"a1", 1>>), O("cost", <<"b1", 0>>), O("cost", <<"c", 1>>), O("cost", <<"P", 1>>), O("cpair", <<"a1", "c", 1>>),
              O("lcost", <<"a1", "b1", 1>>), O("lcost", <<"b2", "a2", 1>>) >>)
RECURSIVE Run(_, _)
Run(M, i) == IF i > Len(Setup) THEN M
             ELSE LET N == Step(M, [op |-> Setup[i].op, a |-> Setup[i].a, o |-> [ret |-> "ok"]]).st IN
                  IF Len(N.lln) >= 0 THEN Run(N, i + 1) ELSE M        \* evaluated here
ASSUME PrintT(ToJson([setup |-> Setup]))

RelOps == {O("pass", <<"a1", v>>) : v \in 0..2} \cup {O("pass", <<"b1", v>>) : v \in 1..2} \cup {O("pass", <<"x", v>>) : v \in 0..1}
     \cup UNION {{O("ch", <<p[1], p[2], v>>) : v \in 0..1} : p \in {<<"a1", "b1">>, <<"b1", "a1">>, <<"b1~", "a1~">>}}
     \cup {O("pp", <<"a2", "P", v>>) : v \in 0..1} \cup {O("pp", <<"a1", "c", v>>) : v \in 0..1}
CostOps == {O("cost", <<"a1", v>>) : v \in {1, 3}} \cup {O("cost", <<"b1", v>>) : v \in {0, 2}} \cup {O("cost", <<"c", v>>) : v \in 1..2}
     \cup {O("cost", <<"P", v>>) : v \in {1, 4}} \cup {O("cpair", <<"a1", "c", v>>) : v \in {1, 5, Big}}
     \cup {O("lcost", <<"a1", "b1", v>>) : v \in {0, 1, Big}} \cup {O("lcost", <<"b2", "a2", v>>) : v \in {1, Big}}
     \cup {O("ch", <<"b1", "a1", v>>) : v \in 0..1}
Init == s = Run(M0, 1) /\ last = O("reset", << >>)
Next == \E o \in IF Mode = "rel" THEN RelOps ELSE CostOps :
   /\ s' = Step(s, [op |-> o.op, a |-> o.a, o |-> [ret |-> "ok"]]).st
   /\ s' # s /\ last' = o
Spec == Init /\ [][Next]_vars
vw == s

(* ------------------------------------------------------------------ properties of the graph *)
Costs == << C("t", 0, 0), C("d", 2, 0) >>
GraphOf(M, height) == Graph(M, Env(M, "t", << >>), Costs, height, "")
LeftKinds == {"Left", "AdjacentLeft"}
RightKinds == {"Right", "AdjacentRight"}
RelOk(M, height) == LET G == TLCEval(GraphOf(M, height)) IN
  /\ \A k \in DOMAIN G.out, a \in G.V : \A e \in G.out[k][a] :
       /\ e.t \in G.V /\ e.t # a
       (* one relation per pair *)
       /\ \A f \in G.out[k][a] : f.t = e.t => f = e
       /\ e.r \in LeftKinds => \E f \in G.out[k][e.t] : f.t = a /\ f.r \in RightKinds
       /\ e.r \in RightKinds => \E f \in G.out[k][e.t] : f.t = a /\ f.r \in LeftKinds
       /\ (e.r = "Conflicting" \/ e.r = "Area") => e.w >= 0
       /\ e.r = "Conflicting" => \E f \in G.out[k][e.t] : f.t = a /\ f.r = "Conflicting"
       /\ [t |-> a, r |-> e.r, w |-> e.w] \in G.inn[k][e.t]
  /\ \A k \in DOMAIN G.inn, b \in G.V : \A e \in G.inn[k][b] : [t |-> b, r |-> e.r, w |-> e.w] \in G.out[k][e.t]
  (* at most one neighbour on each side: chains are well defined and end *)
  /\ \A k \in DOMAIN G.out, a \in G.V : Cardinality({e \in G.out[k][a] : e.r \in LeftKinds}) <= 1
                                       /\ Cardinality({e \in G.out[k][a] : e.r \in RightKinds}) <= 1
  /\ \A a \in G.V : Base(a) \in G.V /\ (~IsArea(M, a) => \E p \in 1..2 : Get(M.pass, Base(a), 1) >= (IF IsInv(a) THEN 2 ELSE 1))
(* how boundaries are stored makes no difference *)
FlipN(b, n) == IF b[1] = n THEN Flip(b) ELSE b
Turned(M, n) == [M EXCEPT !.line[n] = RevSeq(@),
   !.llt = [h \in DOMAIN @ |-> [l |-> FlipN(@[h].l, n), r |-> FlipN(@[h].r, n)]],
   !.area = [h \in DOMAIN @ |-> [i \in DOMAIN @[h] |-> FlipN(@[h][i], n)]]]
Core(G) == <<G.V, G.out, G.inn>>
RelInv == /\ RelOk(s, -1) /\ RelOk(s, 2)
          /\ \A n \in {"m1", "u2"} : Core(GraphOf(Turned(s, n), 2)) = Core(GraphOf(s, 2))

(* ------------------------------------------------------------------ properties of the searches *)
RECURSIVE Best(_, _, _, _)
Best(E, seen, a, b) == IF a = b THEN 0
  ELSE Min({INF} \cup {(LET d == Best(E, seen \cup {a}, e.t, b) IN IF d = INF THEN INF ELSE e.w + d) : e \in {e \in E[a] : e.t \notin seen}})
(* one possible answer of a search: settle the nearest first *)
RECURSIVE Tree(_, _, _, _)
Tree(E, T, open, done) ==
  IF open = {} THEN [v |-> done, p |-> T]
  ELSE LET u == CHOOSE u \in open : \A v \in open : T[u][1] < T[v][1] \/ (T[u][1] = T[v][1])
           better == {e \in E[u] : e.t \notin {done[i][1] : i \in DOMAIN done} /\ e.t # u /\ T[u][1] + e.w < T[e.t][1]}
           nT == TLCEval([v \in DOMAIN T |-> IF \E e \in better : e.t = v
                   THEN LET e == CHOOSE e \in better : e.t = v IN <<T[u][1] + e.w, u, T[u][3] + 1, T[u][4] + (IF e.r \in Changes THEN 1 ELSE 0)>> ELSE T[v]])
       IN Tree(E, nT, TLCEval((open \ {u}) \cup {e.t : e \in better}), Append(done, <<u, T[u][2], T[u][1], T[u][3], T[u][4]>>))
Start(E, h) == Tree(E, [v \in DOMAIN E |-> IF v = h THEN <<0, h, 1, 0>> ELSE <<INF, h, 0, 0>>], {h}, << >>)
RECURSIVE Way(_, _, _)
Way(p, h, v) == IF v = h THEN <<h>> ELSE Append(Way(p, h, p[v][2]), v)
RECURSIVE SortedPaths(_)
SortedPaths(ps) == IF ps = {} THEN << >> ELSE LET x == CHOOSE x \in ps : TRUE IN <<x>> \o SortedPaths(ps \ {x})
SearchInv ==
  LET M0G == [s EXCEPT !.G = GraphOf(s, -1)] G == M0G.G IN
  \A kinds \in {<<TRUE, FALSE>>, <<FALSE, FALSE>>, <<TRUE, TRUE>>} :
   LET E == Out(G, 0, Kinds(kinds[1], kinds[2])) IN
   \A a \in {"a1", "b1", "P"} \cap G.V :
     LET D == Dist(E, a) R == Start(E, a) IN
     /\ \A b \in G.V : D[b] = Best(E, {}, a, b)
     /\ \A v \in G.V : R.p[v][1] = D[v]
     (* the specification accepts what a plain search finds *)
     /\ VisitOk(E, a, {}, R.v)
     /\ \A b \in G.V : D[b] < INF => PathOk(E, <<D>>, <<a, b>>, Way(R.p, a, b))
     /\ kinds[2] => LET leaves == {v \in G.V : D[v] < INF /\ \A w \in G.V : D[w] < INF /\ w # a => R.p[w][2] # v}
                       ps == TLCEval({Way(R.p, a, v) : v \in leaves})
                   IN PathsOk(M0G, "a", a, 1000000, -1, 0, TRUE, TRUE, [ret |-> "ok", paths |-> SortedPaths(ps)])

Key(x) == ToString(<<TLCFP(x), TLCFP(<<x, "second">>)>>)
Emit == PrintT(ToJson([f |-> Key(s), t |-> Key(s'), lv |-> TLCGet("level"), op |-> last'.op, a |-> last'.a]))
=============================================================================
