---------------------------- MODULE MapGraphMC ----------------------------
(* Exhaustive exploration of a small universe of cross-referencing elements; prints every transition. *)
EXTENDS MapGraph, Json, TLCExt

CONSTANTS Variant, Edits, Drops

Setup == <<
  [op |-> "reset", a |-> << >>],
  [op |-> "mkpt", a |-> <<"p1", 1>>], [op |-> "mkpt", a |-> <<"p2", 2>>],
  [op |-> "mkls", a |-> <<"l1", 11, "p1">>], [op |-> "mkls", a |-> <<"l2", 12, "p2", "p1", "p2">>], [op |-> "mkls", a |-> <<"l3", 13>>],
  [op |-> "mkpg", a |-> <<"g1", 11, "p2">>],
  [op |-> "mkll", a |-> <<"x1", 21, "l1", 0, "l2", 1>>], [op |-> "mkll", a |-> <<"x2", 22, "l2", 0, "l1", 0>>],
  [op |-> "mkar", a |-> <<"a1", 22, 0, "l1", 0, 1, "l2", 1>>],
  [op |-> "mkre", a |-> <<"r1", 31, "refers", "x2", 1, "ref_line", "l1", 0, "yield", "g1", 0, "zz", "a1", 0>>],
  [op |-> "mkre", a |-> <<"r2", 12, "refers", "a1", 0>>] >>

NoObs(o) == [op |-> o.op, a |-> o.a, o |-> << >>]
RECURSIVE RunAll(_, _)
RunAll(s, q) == IF q = << >> THEN s ELSE RunAll(Step(s, NoObs(q[1])).st, SubSeq(q, 2, Len(q)))
Start == RunAll(S0, Setup)

VARIABLES s, stale, last

N == {"p1", "l1", "l2", "g1", "x1", "x2", "a1", "r1", "r2"}
O(op, a) == [op |-> op, a |-> a]
MapOps ==
  {O("add", <<"m1", t[1], t[2]>>) : t \in {<<n, 0>> : n \in N} \cup {<<"x1", 1>>, <<"l2", 1>>}}
  \cup {O("addre", <<"x1", "r1">>), O("addre", <<"x2", "r2">>), O("addre", <<"a1", "r1">>), O("addre", <<"x2", "r1">>)}
  \cup {O("setcl", <<"x1", "l3", 1>>), O("lspush", <<"l1", "p2">>), O("left", <<"x1", "l2", 0>>)}
SubOps ==
  {O("add", <<"s1", t[1], t[2]>>) : t \in {<<"l1", 1>>, <<"g1", 0>>, <<"x1", 0>>, <<"x2", 1>>, <<"a1", 0>>, <<"r1", 0>>}}
  \cup {O("addre", <<"x1", "r1">>), O("addre", <<"a1", "r2">>), O("addre", <<"x1", "r2">>)}
  \cup {O("drop", <<n>>) : n \in {"x1", "x2", "a1", "r1"}}
  \cup {O("conv", <<"s1", "m2", 0>>), O("free", <<"m2">>), O("free", <<"s1">>), O("news", <<"s1">>)}
Ops == IF Variant = "map" THEN MapOps ELSE SubOps

Strs(o) == {o.a[j] : j \in 1..(IF Len(o.a) = 3 THEN 2 ELSE Len(o.a))}       \* the third argument is an orientation
Uses(o) == Strs(o) \cap N
EditCount == Len(s.o["x1"].re) + Len(s.o["x2"].re) + Len(s.o["a1"].re) + Len(s.o["x1"].cl) + Len(s.o["l1"].seq) - 1
             + (IF s.o["x1"].seq[1][1] = "l1" THEN 0 ELSE 1)
EditOps == {"addre", "setcl", "lspush", "left"}
Enabled(o) ==
  /\ o.op \in EditOps => EditCount < Edits
  /\ o.op = "drop" => Cardinality(s.held \cap N) > Cardinality(N) - Drops
  /\ o.op \in {"add", "addre", "setcl", "lspush", "left", "drop"} => Uses(o) \subseteq s.held
  /\ o.op = "add" => o.a[1] \in DOMAIN s.m
  /\ o.op = "addre" => o.a[2] \notin Range2(s.o[o.a[1]].re)
  /\ o.op = "lspush" => Len(s.o["l1"].seq) < 2
  /\ o.op = "setcl" => s.o["x1"].cl = << >>
  /\ o.op = "news" => "s1" \notin DOMAIN s.m
  /\ o.op \in {"conv", "mvs", "free"} => o.a[1] \in DOMAIN s.m
  /\ o.op = "conv" => "m2" \notin DOMAIN s.m
  /\ "m2" \in DOMAIN s.m => o.op \in {"free", "drop"}      \* keeps the state space small

Member(n) == \E M \in DOMAIN s.m : n \in Names(s.m[M].mem)
Init == /\ s = SetMap(Start, IF Variant = "map" THEN "m1" ELSE "s1", Blank(Variant = "sub"))
        /\ stale = {} /\ last = O("reset", << >>)
Next == \E o \in Ops : /\ Enabled(o)
                       /\ s' = Step(s, NoObs(o)).st
                       /\ stale' = IF o.op \in EditOps /\ Member(o.a[1]) THEN stale \cup {o.a[1]} ELSE stale
                       /\ last' = o
Spec == Init /\ [][Next]_<<s, stale, last>>
vw == <<s.o, s.held, s.m, stale>>

(* C01: every map is self-contained, as far as elements were not edited after they were added *)
SelfContained == \A M \in DOMAIN s.m : ~s.m[M].sub =>
  \A t \in s.m[M].mem : t[1] \notin stale => Names(Refs(s, t)) \subseteq Names(s.m[M].mem)
OncePerName == \A M \in DOMAIN s.m : Cardinality(s.m[M].mem) = Cardinality(Names(s.m[M].mem))
(* C02: the index answers what a scan over the layers would answer *)
IndexIsScan == \A M \in DOMAIN s.m : ~s.m[M].sub =>
  {u \in s.m[M].use : u[1] \notin stale} = UNION {UseOf(s, t) : t \in {t \in s.m[M].mem : t[1] \notin stale}}
(* C03 *)
Submap == \A M \in DOMAIN s.m : s.m[M].sub => s.m[M].keep \subseteq Alive(s)
KeepsAlive == [][\A M \in DOMAIN s.m \cap DOMAIN s'.m : s.m[M].sub /\ s'.m[M].sub /\ s.m[M].mem \subseteq s'.m[M].mem =>
   \A n \in Names(s.m[M].mem) : n \notin stale /\ Range2(s.o[n].re) \cap stale = {} => Params(s, n) \subseteq Alive(s')]_<<s, stale, last>>
OnlyGrows == [][\A M \in DOMAIN s.m \cap DOMAIN s'.m : last'.op # "mvs" => s.m[M].mem \subseteq s'.m[M].mem]_<<s, stale, last>>
Frame == [][\A M \in DOMAIN s.m \cap DOMAIN s'.m : s.m[M] # s'.m[M] => M \in Strs(last')]_<<s, stale, last>>
ConvIsClosure == [][last'.op = "conv" => Names(s'.m["m2"].mem) = Names(Closure(s, s.m["s1"].mem, {}))]_<<s, stale, last>>

Key(x) == ToString(<<TLCFP(x), TLCFP(<<x, "second">>)>>)
Emit == PrintT(ToJson([f |-> Key(vw), t |-> Key(vw'), lv |-> TLCGet("level"), op |-> last'.op, a |-> last'.a]))
=============================================================================
