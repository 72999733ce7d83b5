----------------------------- MODULE MapGraph -----------------------------
(* C01 C02 C03 - maps and submaps over a graph of named primitives.
   An element is referred to by a token <<name, inv>> (inv = 1: the inverted handle of the named object).
   State s:
     o     objects: name -> [k, id, seq, in, cl, re, par]
             k: "p" point, "l" linestring, "g" polygon, "x" lanelet, "a" area, "r" regulatory element
             seq: points of l/g, <<left, right>> tokens of x, outer bound tokens of a;   in: tokens of the inner bounds of a
             cl: << >> or <<token>> custom centerline of x;   re: regulatory elements of x/a;   par: <<role, token>> of r
     held  names the user still holds
     m     maps: name -> [sub, mem, use, keep]
             mem: tokens in the layers;  use: index <<owner, ref, refinv, n>> filled when an element enters a layer;
             keep: lanelets and areas a submap keeps alive
     reg   all ids that have been given to an element of some map *)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt, TLC

Kinds == <<"p", "l", "g", "x", "a", "r">>
Roles == <<"cancels", "ref_line", "refers", "right_of_way", "yield", "zz">>     \* in the order they are reported

S0 == [o |-> << >>, held |-> {}, m |-> << >>, reg |-> {}]

Flip(t) == <<t[1], 1 - t[2]>>
Orient(t, i) == IF i = 1 THEN Flip(t) ELSE t
Toks(q) == [j \in 1..Len(q) |-> <<q[j], 0>>]
Range2(q) == {q[j] : j \in 1..Len(q)}
Names(ts) == {t[1] : t \in ts}

NameOf(s, k) == {n \in DOMAIN s.o : s.o[n].k = k}
Alive(s) == s.held \cup UNION {Names(s.m[x].mem) \cup s.m[x].keep : x \in DOMAIN s.m}
LiveParams(s, r) == {s.o[r].par[j][2] : j \in {j \in 1..Len(s.o[r].par) :
                        \/ s.o[s.o[r].par[j][2][1]].k \notin {"x", "a"}
                        \/ s.o[r].par[j][2][1] \in Alive(s)}}

(* what the usage index has to know about an element: a sequence, an element may be referenced more than once *)
Keys(s, t) ==
  LET ob == s.o[t[1]] IN
  CASE ob.k = "p" -> << >>
    [] ob.k \in {"l", "g"} -> Toks(ob.seq)
    [] ob.k = "x" -> (IF t[2] = 1 THEN <<Flip(ob.seq[2]), Flip(ob.seq[1])>> ELSE ob.seq) \o Toks(ob.re)
    [] ob.k = "a" -> ob.seq \o ob.in \o Toks(ob.re)
    [] ob.k = "r" -> SetToSeq(LiveParams(s, t[1]))
KeysN(s, t) == LET q == Keys(s, t) IN
  {<<t[1], u[1], u[2], Cardinality({j \in 1..Len(q) : q[j] = u})>> : u \in Range2(q)}
KeysR(s, n) ==            \* regulatory elements: multiplicity of parameters
  LET q == s.o[n].par IN
  {<<n, u[1], u[2], Cardinality({j \in 1..Len(q) : q[j][2] = u})>> : u \in LiveParams(s, n)}
UseOf(s, t) == IF s.o[t[1]].k = "r" THEN KeysR(s, t[1]) ELSE KeysN(s, t)

(* everything an element pulls into a map *)
Refs(s, t) == Range2(Keys(s, t)) \cup
  (IF s.o[t[1]].k = "x" /\ s.o[t[1]].cl # << >> THEN {Orient(s.o[t[1]].cl[1], t[2])} ELSE {})
RECURSIVE Clo(_, _, _, _)
Clo(s, done, todo, stop) ==
  IF todo = {} THEN done
  ELSE LET d2 == done \cup todo
           nx == {u \in UNION {Refs(s, t) : t \in todo} : u[1] \notin stop /\ u \notin d2}
       IN Clo(s, d2, nx, stop)
Closure(s, roots, stop) == Clo(s, {}, {t \in roots : t[1] \notin stop}, stop)

(* ---- what a map shows of one layer; ob is the observed layer <<name, inv, id>>.. used only to resolve what the
   specification leaves open: the value of a fresh id, and in which orientation an element referenced in both is stored *)
ObsOf(e, k) == IF k \in DOMAIN e.o THEN e.o[k].it ELSE << >>
ObsAll(e) == UNION {Range2(ObsOf(e, Kinds[j])) : j \in 1..Len(Kinds)}
Canon(obs, set) == IF Range2(obs) = set /\ Len(obs) = Cardinality(set) THEN obs ELSE SetToSeq(set)
(* multiset variant: every owner at least once and at most as often as it references *)
CanonN(obs, setn) ==          \* setn: {<<item, n>>}
  IF /\ Range2(obs) = {u[1] : u \in setn}
     /\ \A u \in setn : Cardinality({j \in 1..Len(obs) : obs[j] = u[1]}) <= u[2]
  THEN obs ELSE SetToSeq({u[1] : u \in setn})

Layer(s, M, k, e) == [ it |-> Canon(ObsOf(e, k), {<<t[1], t[2], s.o[t[1]].id>> : t \in {t \in s.m[M].mem : s.o[t[1]].k = k}}),
                       bad |-> << >> ]
Dump(s, M, e) ==
  [ p |-> Layer(s, M, "p", e), l |-> Layer(s, M, "l", e), g |-> Layer(s, M, "g", e), x |-> Layer(s, M, "x", e),
    a |-> Layer(s, M, "a", e), r |-> Layer(s, M, "r", e), size |-> Cardinality(s.m[M].mem), empty |-> s.m[M].mem = {} ]

(* put tokens into map M; cand: candidates per name, the observation e selects orientation and fresh ids *)
Enter(s, M, cand, e) ==
  LET ns == Names(cand)
      obs == ObsAll(e)
      Ori(n) == LET c == {t \in cand : t[1] = n} oc == {t \in c : \E u \in obs : u[1] = n /\ u[2] = t[2]}
                IN CHOOSE t \in (IF oc # {} THEN oc ELSE c) : TRUE
      new == {Ori(n) : n \in ns}
      blank == {n \in ns : s.o[n].id = 0}
      ObsId(n) == LET c == {u \in obs : u[1] = n} IN IF c = {} THEN -1 ELSE (CHOOSE u \in c : TRUE)[3]
      fixed == {s.o[n].id : n \in ns \ blank}
      okids == /\ Cardinality({ObsId(n) : n \in blank}) = Cardinality(blank)
               /\ \A n \in blank : ObsId(n) > 0 /\ ObsId(n) \notin s.reg /\ ObsId(n) \notin fixed
      o2 == [n \in DOMAIN s.o |-> IF n \in blank THEN [s.o[n] EXCEPT !.id = IF okids THEN ObsId(n) ELSE -1] ELSE s.o[n]]
      s2 == [s EXCEPT !.o = o2, !.reg = @ \cup {o2[n].id : n \in ns},
                      !.m[M].mem = @ \cup new, !.m[M].use = @ \cup UNION {UseOf(s, t) : t \in new}]
  IN s2

Params(s, n) ==      \* lanelets and areas a regulatory element, or those of a lanelet or area, refer to
  LET rs == IF s.o[n].k = "r" THEN {n} ELSE IF s.o[n].k \in {"x", "a"} THEN Range2(s.o[n].re) ELSE {}
  IN {t[1] : t \in {t \in UNION {LiveParams(s, r) : r \in rs} : s.o[t[1]].k \in {"x", "a"}}}

AddTok(s, M, t, e) ==
  IF t[1] \in Names(s.m[M].mem) THEN s
  ELSE IF s.m[M].sub THEN [Enter(s, M, {t}, e) EXCEPT !.m[M].keep = @ \cup Params(s, t[1])]
  ELSE Enter(s, M, Closure(s, {t}, Names(s.m[M].mem)), e)

Blank(sub) == [sub |-> sub, mem |-> {}, use |-> {}, keep |-> {}]
SetMap(s, M, rec) == [s EXCEPT !.m = (M :> rec) @@ @]
DropMap(s, M) == [s EXCEPT !.m = [x \in DOMAIN @ \ {M} |-> @[x]]]

CreateMap(s, M, sub, roots, e) ==
  LET s1 == SetMap(s, M, Blank(sub)) IN
  IF sub THEN [Enter(s1, M, roots, e) EXCEPT !.m[M].keep = UNION {Params(s, t[1]) : t \in roots}]
  ELSE Enter(s1, M, Closure(s1, roots, {}), e)

(* ---- queries *)
Owners(s, M, k, n, i) == {u \in s.m[M].use : u[2] = n /\ u[3] = i /\ s.o[u[1]].k = k}
Stored(s, M, n) == CHOOSE t \in s.m[M].mem : t[1] = n
L(e, v, k) == IF v \in DOMAIN e.o /\ k \in DOMAIN e.o[v] THEN e.o[v][k] ELSE << >>
UseToks(s, M, k, n, i, obs) == CanonN(obs, {<<Stored(s, M, u[1]), u[4]>> : u \in Owners(s, M, k, n, i)})
UseNames(s, M, k, n, i, obs) == CanonN(obs, {<<u[1], u[4]>> : u \in Owners(s, M, k, n, i)})
ViaLines(s, M, k, n, obs) ==      \* owners of linestrings that own the point, in either orientation
  LET ls == {u[1] : u \in Owners(s, M, "l", n, 0)} IN
  Canon(obs, {Stored(s, M, u[1]) : u \in {u \in s.m[M].use : u[2] \in ls /\ s.o[u[1]].k = k}})
Use(s, M, n, i, e, v) ==
  LET k == s.o[n].k IN
  [ l |-> IF k = "p" THEN UseNames(s, M, "l", n, 0, L(e, v, "l")) ELSE << >>,
    g |-> IF k = "p" THEN UseToks(s, M, "g", n, 0, L(e, v, "g")) ELSE << >>,
    x |-> IF k = "p" THEN ViaLines(s, M, "x", n, L(e, v, "x"))
          ELSE IF k \in {"l", "r"} THEN UseToks(s, M, "x", n, i, L(e, v, "x")) ELSE << >>,
    a |-> IF k = "p" THEN ViaLines(s, M, "a", n, L(e, v, "a"))
          ELSE IF k \in {"l", "r"} THEN UseToks(s, M, "a", n, i, L(e, v, "a")) ELSE << >>,
    r |-> IF k = "r" THEN << >> ELSE UseToks(s, M, "r", n, i, L(e, v, "r")) ]

PtHas(s, q, id) == \E j \in 1..Len(q) : s.o[q[j]].id = id
XHas(s, x, id) == \/ PtHas(s, s.o[s.o[x].seq[1][1]].seq, id) \/ PtHas(s, s.o[s.o[x].seq[2][1]].seq, id)
                  \/ \E j \in 1..Len(s.o[x].re) : s.o[s.o[x].re[j]].id = id
AHas(s, a, id) == \E j \in 1..Len(s.o[a].seq) : PtHas(s, s.o[s.o[a].seq[j][1]].seq, id)
RHas(s, r, id) == \E t \in LiveParams(s, r) : LET k == s.o[t[1]].k IN
   \/ s.o[t[1]].id = id
   \/ k \in {"l", "g"} /\ PtHas(s, s.o[t[1]].seq, id)
   \/ k = "x" /\ XHas(s, t[1], id)
   \/ k = "a" /\ AHas(s, t[1], id)
In(s, M, k) == {n \in Names(s.m[M].mem) : s.o[n].k = k}
HasList(e, k, set) == Canon(IF k \in DOMAIN e.o THEN e.o[k] ELSE << >>, set)
Has(s, M, n, e) == LET id == s.o[n].id IN
  [ x |-> HasList(e, "x", {x \in In(s, M, "x") : XHas(s, x, id)}),
    l |-> HasList(e, "l", {x \in In(s, M, "l") : PtHas(s, s.o[x].seq, id)}),
    g |-> HasList(e, "g", {x \in In(s, M, "g") : PtHas(s, s.o[x].seq, id)}),
    r |-> HasList(e, "r", {x \in In(s, M, "r") : RHas(s, x, id)}) ]

ParShown(s, r, j) == LET t == s.o[r].par[j][2] IN
  IF s.o[t[1]].k \in {"x", "a"} /\ t[1] \notin Alive(s) THEN <<"expired", 0>> ELSE t
ParList(s, r) ==
  LET rs == SelectSeq(Roles, LAMBDA x : \E j \in 1..Len(s.o[r].par) : s.o[r].par[j][1] = x)
      js(x) == SelectSeq([j \in 1..Len(s.o[r].par) |-> j], LAMBDA j : s.o[r].par[j][1] = x)
  IN <<r, [i \in 1..Len(rs) |-> <<rs[i], [j \in 1..Len(js(rs[i])) |-> ParShown(s, r, js(rs[i])[j])]>>]>>
Reached(s, M) == UNION {IF s.o[n].k = "r" THEN {n} ELSE Range2(s.o[n].re) : n \in Names(s.m[M].mem)}

(* ---- script arguments *)
Triples(a, from) == [j \in 1..((Len(a) - from + 1) \div 3) |-> <<a[from + 3 * (j - 1)], <<a[from + 3 * (j - 1) + 1], a[from + 3 * (j - 1) + 2]>>>>]
Pairs(a, from) == {<<a[from + 2 * (j - 1)], a[from + 2 * (j - 1) + 1]>> : j \in 1..((Len(a) - from + 1) \div 2)}
Obj(k, id, seq) == [k |-> k, id |-> id, seq |-> seq, in |-> << >>, cl |-> << >>, re |-> << >>, par |-> << >>]
Put(s, n, rec) == [s EXCEPT !.o = (n :> rec) @@ @, !.held = @ \cup {n}]
(* explicit ids are in the script, ids ahead of the generator are reported *)
MkId(e) == IF e.a[2] >= 0 THEN e.a[2] ELSE IF "id" \in DOMAIN e.o THEN e.o.id ELSE -1
Ok(s) == [st |-> s, out |-> [ok |-> TRUE]]
Shown(s, M, e) == [st |-> s, out |-> Dump(s, M, e)]

Step(s, e) ==
  LET op == e.op a == e.a IN
  CASE op = "reset" -> Ok(S0)
    [] op = "mkpt" -> [st |-> Put(s, a[1], Obj("p", MkId(e), << >>)), out |-> [id |-> MkId(e)]]
    [] op = "mkls" -> [st |-> Put(s, a[1], Obj("l", MkId(e), SubSeq(a, 3, Len(a)))), out |-> [id |-> MkId(e)]]
    [] op = "mkpg" -> [st |-> Put(s, a[1], Obj("g", MkId(e), SubSeq(a, 3, Len(a)))), out |-> [id |-> MkId(e)]]
    [] op = "mkll" -> [st |-> Put(s, a[1], Obj("x", MkId(e), <<<<a[3], a[4]>>, <<a[5], a[6]>>>>)), out |-> [id |-> MkId(e)]]
    [] op = "mkar" ->
         LET q == Triples(a, 3)
             pick(f(_)) == LET r == SelectSeq(q, LAMBDA x : f(x[1])) IN [j \in 1..Len(r) |-> r[j][2]]
             outer(x) == x = 0
             inner(x) == x > 0
         IN [st |-> Put(s, a[1], [Obj("a", MkId(e), pick(outer)) EXCEPT !.in = pick(inner)]), out |-> [id |-> MkId(e)]]
    [] op = "mkre" -> [st |-> Put(s, a[1], [Obj("r", MkId(e), << >>) EXCEPT !.par = Triples(a, 3)]), out |-> [id |-> MkId(e)]]
    [] op = "lspush" -> Ok([s EXCEPT !.o[a[1]].seq = Append(@, a[2])])
    [] op = "left" -> Ok([s EXCEPT !.o[a[1]].seq[1] = <<a[2], a[3]>>])
    [] op = "right" -> Ok([s EXCEPT !.o[a[1]].seq[2] = <<a[2], a[3]>>])
    [] op = "setcl" -> Ok([s EXCEPT !.o[a[1]].cl = <<<<a[2], a[3]>>>>])
    [] op = "addre" -> Ok([s EXCEPT !.o[a[1]].re = Append(@, a[2])])
    [] op = "rmre" ->
         LET q == s.o[a[1]].re j == {j \in 1..Len(q) : q[j] = a[2]} IN
         IF j = {} THEN [st |-> s, out |-> [ret |-> FALSE]]
         ELSE [st |-> [s EXCEPT !.o[a[1]].re = LET f == CHOOSE f \in j : \A g \in j : f <= g IN SubSeq(@, 1, f - 1) \o SubSeq(@, f + 1, Len(@))],
               out |-> [ret |-> TRUE]]
    [] op = "repar" -> Ok([s EXCEPT !.o[a[1]].par = Append(@, <<a[2], <<a[3], a[4]>>>>)])
    [] op = "drop" -> Ok([s EXCEPT !.held = @ \ {a[1]}])
    [] op = "free" -> Ok(DropMap(s, a[1]))
    [] op = "newm" -> Ok(SetMap(s, a[1], Blank(FALSE)))
    [] op = "news" -> Ok(SetMap(s, a[1], Blank(TRUE)))
    [] op = "add" -> LET s2 == AddTok(s, a[1], <<a[2], a[3]>>, e) IN Shown(s2, a[1], e)
    [] op = "addnull" -> [st |-> s, out |-> ("ex" :> "null") @@ Dump(s, a[1], e)]
    [] op = "createm" -> LET s2 == CreateMap(s, a[1], FALSE, Pairs(a, 3), e) IN Shown(s2, a[1], e)
    [] op = "creates" -> LET s2 == CreateMap(s, a[1], TRUE, Pairs(a, 3), e) IN Shown(s2, a[1], e)
    [] op = "conv" -> LET s2 == CreateMap(s, a[2], FALSE, s.m[a[1]].mem, e) IN Shown(s2, a[2], e)
    [] op \in {"mvm", "mvs"} ->
         LET s2 == SetMap(DropMap(s, a[1]), a[2], [s.m[a[1]] EXCEPT !.sub = (op = "mvs")]) IN Shown(s2, a[2], e)
    [] op = "dump" -> Shown(s, a[1], e)
    [] op = "use" -> [st |-> s, out |-> [m |-> Use(s, a[1], a[2], a[3], e, "m"), c |-> Use(s, a[1], a[2], a[3], e, "c")]]
    [] op = "has" -> [st |-> s, out |-> Has(s, a[1], a[2], e)]
    [] op = "pars" ->
         LET set == {ParList(s, r) : r \in Reached(s, a[1])} IN
         [st |-> s, out |-> [re |-> Canon(IF "re" \in DOMAIN e.o THEN e.o.re ELSE << >>, set)]]
    [] OTHER -> [st |-> s, out |-> [unknown |-> op]]
=============================================================================
