--------------------------- MODULE MapSearchMC ---------------------------
(* exhaustive: every order of adding the elements of a small world to a map. On every content the searches that work on boxes
   are shown to give what the definitions over true distances demand. *)
EXTENDS MapSearch, Json, TLCExt
CONSTANTS Grid
VARIABLES s, last
O(op, a) == [op |-> op, a |-> a]
Setup == <<
  O("pt", <<"p1", 0, 0, 0>>), O("pt", <<"p2", 0, 4, 1>>), O("pt", <<"p3", 4, 4, 0>>), O("pt", <<"p4", 4, 0, 2>>),
  O("pt", <<"p5", 8, 8, 0>>), O("pt", <<"p6", 2, 8, 3>>), O("pt", <<"p7", 8, 1, 0>>),
  O("line", <<"l1", "p1", "p2">>), O("line", <<"l2", "p3", "p4">>), O("line", <<"l3", "p5", "p7", "p1">>), O("line", <<"l4", "p2", "p6", "p5", "p7">>),
  O("line", <<"l5">>),
  O("poly", <<"g1", "p6", "p5", "p3">>), O("llt", <<"t1", "l1", 0, "l2", 1>>), O("area", <<"a1", "l4", 0>>),
  O("re", <<"r1", "p6", "l2">>), O("re", <<"r2">>) >>
RECURSIVE Run(_, _)
Run(M, i) == IF i > Len(Setup) THEN M ELSE LET N1 == Step(M, Setup[i]).st IN IF DOMAIN N1.shape # {} THEN Run(N1, i + 1) ELSE M
ASSUME PrintT(ToJson([setup |-> Setup]))
Tops == {"p1", "p7", "l1", "l3", "l5", "g1", "t1", "a1", "r1", "r2"}
Ops == {O("add", <<1, n>>) : n \in Tops} \cup {O("add", <<3, n>>) : n \in {"l3", "t1", "g1"}}
Init == s = Run(M0, 1) /\ last = O("reset", << >>)
Next == \E o \in Ops : s' = Step(s, o).st /\ s' # s /\ last' = o
Spec == Init /\ [][Next]_<<s, last>>
vw == s.maps

Kinds == {"p", "l", "g", "t", "a", "r"}
(* the search of the nearest elements, which sees the elements in any order of ascending box distances and keeps a list of the best *)
RECURSIVE Search(_, _, _, _, _, _)
Keep(list, n, x, D) == LET pos == Cardinality({i \in 1..Len(list) : Less(D[list[i]], D[x])})
                           full == Len(list) >= n
                       IN IF full /\ pos = Len(list) THEN list
                          ELSE LET cutl == IF full THEN SubSeq(list, 1, Len(list) - 1) ELSE list
                               IN SubSeq(cutl, 1, pos) \o <<x>> \o SubSeq(cutl, pos + 1, Len(cutl))
Search(E, todo, list, n, D, B) ==      \* set of all possible results
  IF todo = {} THEN {list}
  ELSE LET nearest == {x \in todo : \A y \in todo : B[x] <= B[y]}
       IN UNION {IF Len(list) >= n /\ (n = 0 \/ Less(D[list[Len(list)]], <<B[x], 1>>)) THEN {list}
                 ELSE Search(E, todo \ {x}, Keep(list, n, x, D), n, D, B) : x \in nearest}
AsObs(list, D) == [i \in 1..Len(list) |-> <<list[i], 0>>]
RankedEx(D, q) == NoRep(q) /\ \A i \in 1..(Len(q) - 1) : ~Less(D[q[i + 1]], D[q[i]])
NearEx(D, n, q) == RankedEx(D, q) /\ Len(q) = Min({n, Cardinality(DOMAIN D)}) /\ \A x \in SetOf(q), y \in DOMAIN D \ SetOf(q) : ~Less(D[y], D[x])

Inv == \A k \in Kinds : LET E == Indexed(s, 1, k) IN E # {} => \A p \in Grid \X Grid :
   LET D == TLCEval([n \in E |-> Dist(p, s.shape[n])]) B == TLCEval([n \in E |-> BoxD(s.box[n], p)]) IN
     /\ \A n \in E : ~Less(D[n], <<B[n], 1>>)                    \* boxes are never further away than what they contain
     /\ \A n \in 0..(Cardinality(E) + 1) : \A q \in Search(E, E, << >>, n, D, B) : NearEx(D, n, q)
     (* what is within a distance has a box that touches the enlarged box of the query *)
     /\ \A lim \in {0, 1, 3} : \A n \in E : Touch(s.box[n], <<p[1] - lim, p[2] - lim, p[1] + lim, p[2] + lim>>)
                                             \/ Less(<<lim * lim, 1>>, D[n])
Key(x) == ToString(<<TLCFP(x.maps), TLCFP(<<x.maps, "second">>)>>)
Emit == PrintT(ToJson([f |-> Key(s), t |-> Key(s'), lv |-> TLCGet("level"), op |-> last'.op, a |-> last'.a]))
=============================================================================
