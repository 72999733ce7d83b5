------------------------------ MODULE MapDocMC ------------------------------
(* Design checks. Mode "map": maps put together from a lanelet, an area, regulatory elements and attributes in every way; writing and loading
   gives the same map, and if elements are missing while a map is written, all that do not need them are as if they were there.
   Mode "doc": a document damaged in up to two places; what the reference loader makes of it satisfies the judgement on loaded maps, and
   an element that is removed changes only what refers to it. All transitions are executed on the real code. *)
EXTENDS MapDoc, Json, TLCExt
CONSTANTS Mode, MaxDamage
VARIABLES s, n, last
O(op, a) == [op |-> op, a |-> a]
Grid(pre) == << O(pre[1], pre[2] \o <<1, 0, 0, 0, 0>>), O(pre[1], pre[2] \o <<2, 6, 0, 1, 0>>), O(pre[1], pre[2] \o <<3, 0, 4, 0, 1>>),
                O(pre[1], pre[2] \o <<4, 6, 4, 0, 0>>), O(pre[1], pre[2] \o <<5, 0, 2, 0, 0>>), O(pre[1], pre[2] \o <<6, 6, 2, 0, 0>>),
                O(pre[1], pre[2] \o <<7, 2, 1, 0, 0>>), O(pre[1], pre[2] \o <<8, 4, 1, 0, 0>>), O(pre[1], pre[2] \o <<9, 3, 3, 0, 0>>) >>
(* the lower and the upper side, the middle, left and right sides, a triangle inside *)
Lines(pre) == << O(pre[1], pre[2] \o <<11, 1, 2>>), O(pre[1], pre[2] \o <<12, 4, 3>>), O(pre[1], pre[2] \o <<13, 5, 6>>),
                 O(pre[1], pre[2] \o <<14, 1, 3>>), O(pre[1], pre[2] \o <<15, 2, 4>>), O(pre[1], pre[2] \o <<16, 7, 8, 9>>),
                 O(pre[1], pre[2] \o <<17, 7, 9>>) >>
MapSetup == Grid(<<"pt", << >>>>) \o Lines(<<"ls", << >>>>) \o << O("pg", <<18, 7, 8, 9>>), O("at", <<"ls", 13, "subtype", "=de274">>) >>
DocSetup == Grid(<<"dn", <<"n">>>>) \o Lines(<<"dw", <<"w">>>>)
  \o << O("dr", <<"r", 21>>), O("dm", <<"r", 21, "way", 12, "left">>), O("dm", <<"r", 21, "way", 11, "right">>),
        O("dm", <<"r", 21, "way", 13, "centerline">>), O("dm", <<"r", 21, "relation", 13, "regulatory_element">>), O("dt", <<"r", 21, "type", "=lanelet">>),
        O("dr", <<"r", 22>>), O("dm", <<"r", 22, "way", 11, "outer">>), O("dm", <<"r", 22, "way", 16, "inner">>), O("dm", <<"r", 22, "way", 12, "outer">>),
        O("dm", <<"r", 22, "way", 14, "outer">>), O("dm", <<"r", 22, "way", 17, "inner">>), O("dm", <<"r", 22, "way", 15, "outer">>),
        O("dt", <<"r", 22, "type", "=multipolygon">>),
        (* the regulatory element has the id of the centerline *)
        O("dr", <<"r", 13>>), O("dm", <<"r", 13, "relation", 21, "right_of_way">>), O("dm", <<"r", 13, "relation", 22, "area">>),
        O("dm", <<"r", 13, "relation", 21, "yield">>), O("dm", <<"r", 13, "way", 14, "ref_line">>),
        O("dt", <<"r", 13, "type", "=regulatory_element">>), O("dt", <<"r", 13, "subtype", "=right_of_way">>) >>
Setup == IF Mode = "map" THEN MapSetup ELSE DocSetup
RECURSIVE Run(_, _)
Run(x, i) == IF i > Len(Setup) THEN x ELSE LET y == Apply(x, Setup[i].op, Setup[i].a) IN IF DOMAIN y.m.pt # {0} /\ DOMAIN y.d.n # {0} THEN Run(y, i + 1) ELSE x
ASSUME PrintT(ToJson([setup |-> Setup]))
(* ---- maps *)
OuterRing == <<11, 0, 15, 0, 12, 0, 14, 1>>   \* counter clockwise
Clockwise == <<14, 0, 12, 1, 15, 1, 11, 1>>
Hole == <<16, 0, 17, 1>>
Turn(q, k) == SubSeq(q, 2 * k + 1, Len(q)) \o SubSeq(q, 1, 2 * k)
Builds(M) ==
  (IF 21 \in DOMAIN M.ll THEN {} ELSE
     {O("ll", <<21, 12, 1, 11, 0>> \o c) : c \in {<< >>, <<13, 0>>}} \cup {O("ll", <<21, 11, 1, 12, 0>> \o c) : c \in {<< >>, <<13, 1>>}})
  \cup (IF 22 \in DOMAIN M.ar THEN {} ELSE {O("ar", <<22>> \o Turn(Clockwise, k) \o h) : k \in {0, 1, 3}, h \in {<< >>, <<0, 0>> \o Hole}})
  \cup (IF 23 \in DOMAIN M.rg THEN {} ELSE
     {O("rg", <<23, "traffic_light", "refers", "ls", 14, v, "refers", "pg", 18, 0>>) : v \in {0, 1}}
     \cup {O("rg", <<23, "speed_limit", "refers", "ls", 13, 0, "cancels", "ls", 14, 0>>)}
     \cup (IF 21 \in DOMAIN M.ll THEN {O("rg", <<23, "right_of_way", "right_of_way", "ll", 21, v, "yield", "ll", 21, 0, "ref_line", "ls", 15, 0>>) : v \in {0, 1}} ELSE {})
     \cup (IF 22 \in DOMAIN M.ar THEN {O("rg", <<23, "regulatory_element", "a", "ar", 22, 0, "b", "pt", 5, 0, "a", "ar", 22, 0>>)} ELSE {}))
  \cup (IF 23 \in DOMAIN M.rg /\ 21 \in DOMAIN M.ll THEN IF 23 \notin Range(M.ll[21].re) THEN {O("re", <<"ll", 21, 23>>)} ELSE {} ELSE {})
  \cup (IF 23 \in DOMAIN M.rg /\ 22 \in DOMAIN M.ar THEN IF 23 \notin Range(M.ar[22].re) THEN {O("re", <<"ar", 22, 23>>)} ELSE {} ELSE {})
Elements(M) == {<<k, i>> : k \in {"pt"}, i \in {7}} \cup UNION {{<<k, i>> : i \in DOMAIN M[k]} : k \in {"ll", "ar", "rg"}} \cup {<<"ls", i>> : i \in {11, 13, 14}}
Without(M, x) == [M EXCEPT ![x[1]] = Less(@, {x[2]})]
(* ---- documents *)
Members(D) == UNION {{<<i, j>> : j \in DOMAIN D.r[i].mem} : i \in DOMAIN D.r}
Sm(i, j, t, id, role) == O("dsm", <<"r", i, j, t, id, role>>)
Damages(D) ==
  {O("ddel", <<"n", i>>) : i \in {1, 5, 7} \cap DOMAIN D.n} \cup {O("drm", <<"w", i>>) : i \in DOMAIN D.w} \cup {O("ddel", <<"r", i>>) : i \in DOMAIN D.r}
  \cup {O("dum", <<"r", x[1], x[2]>>) : x \in Members(D)}
  \cup {Sm(x[1], x[2], D.r[x[1]].mem[x[2]][1], 99, D.r[x[1]].mem[x[2]][3]) : x \in Members(D)}
  \cup {LET m == D.r[x[1]].mem[x[2]] IN Sm(x[1], x[2], m[1], IF m[1] = "way" THEN (IF m[2] = 14 THEN 15 ELSE 14) ELSE (IF m[2] = 21 THEN 22 ELSE 21), m[3]) : x \in Members(D)}
  \cup {LET m == D.r[x[1]].mem[x[2]] IN Sm(x[1], x[2], IF m[1] = "way" THEN "relation" ELSE "way", m[2], m[3]) : x \in Members(D)}
  \cup {O("dt", <<"r", i, "type", t>>) : i \in DOMAIN D.r, t \in {"=lanelet", "=multipolygon", "=regulatory_element", "=other"}}
  \cup {O("dut", <<"r", i, "type">>) : i \in DOMAIN D.r}
  \cup {O("dsn", <<"w", i, 2, 99>>) : i \in DOMAIN D.w} \cup {O("dt", <<"w", i, "area", "=yes">>) : i \in DOMAIN D.w \cap {11, 13, 16}}
Init == s = Run(S0, 1) /\ n = 0 /\ last = O("reset", << >>)
Next == \/ Mode = "map" /\ \E x \in Builds(s.m) : s' = Apply(s, x.op, x.a) /\ n' = n /\ last' = x
        \/ Mode = "map" /\ \E x \in {O("osm", << >>), O("bin", << >>)} : s' = s /\ n' = n /\ last' = x
        \/ Mode = "map" /\ \E x \in Elements(s.m) : s' = s /\ n' = n /\ last' = O("less", x)
        \/ Mode = "doc" /\ n < MaxDamage /\ \E x \in Damages(s.d) : s' = Apply(s, x.op, x.a) /\ n' = n + 1 /\ last' = x /\ s' # s
        \/ Mode = "doc" /\ s' = s /\ n' = n /\ last' = O("load", <<"nwr">>)
Spec == Init /\ [][Next]_<<s, n, last>>
vw == <<s, n>>
Loaded(D) == Load(Pruned(D))
(* writing and loading gives the map back, up to the directions of parameters, and up to where rings start *)
Forget(M) == [M EXCEPT !.rg = [i \in DOMAIN @ |-> [@[i] EXCEPT !.at = @ \cup {<<"type", "=regulatory_element">>},
                                                                !.pa = [j \in DOMAIN @ |-> <<@[j][1], @[j][2], @[j][3], 0>>]]],
                       !.ll = [i \in DOMAIN @ |-> [@[i] EXCEPT !.at = @ \cup {<<"type", "=lanelet">>}]],
                       !.ar = [i \in DOMAIN @ |-> [@[i] EXCEPT !.at = @ \cup {<<"type", "=multipolygon">>}]],
                       !.pg = [i \in DOMAIN @ |-> [@[i] EXCEPT !.at = @ \cup {<<"area", "=true">>}]]]
Rot(t) == <<Canon(t[1]), [j \in DOMAIN t[2] |-> Canon(t[2][j])], t[3], t[4]>>
SameAs(W, k, i, t) == IF k = "ar" THEN Rot(t) = Rot(Want(W, k, i))
                      ELSE IF k = "rg" THEN t = Want(W, k, i)
                      ELSE IF k = "pt" THEN t = Want(W, k, i) ELSE t = Want(W, k, i)
RoundTrip == Mode = "map" =>
  LET L == Loaded(Write(s.m)) W == Forget(s.m) IN
  \A k \in Kinds : DOMAIN L[k] = DOMAIN W[k] /\ \A i \in DOMAIN W[k] : SameAs(W, k, i, L[k][i])
Judged == Mode = "map" => LET D == Write(s.m) IN LoadBad(Pruned(D), Loaded(D), << >>, << >>) = {} /\ Unwritable(D) = {}
(* what is missing changes only what refers to it *)
Needs(D, x, e) == IF x[1] = "n" THEN FALSE
                  ELSE IF x[1] = "w" THEN e[1] = "n" /\ e[2] \in Range(D.w[x[2]].nd)
                  ELSE \E m \in Range(D.r[x[2]].mem) : <<m[1], m[2]>> = <<CASE e[1] = "n" -> "node" [] e[1] = "w" -> "way" [] e[1] = "r" -> "relation", e[2]>>
All(D) == {<<"n", i>> : i \in DOMAIN D.n} \cup {<<"w", i>> : i \in DOMAIN D.w} \cup {<<"r", i>> : i \in DOMAIN D.r}
RECURSIVE Closure(_, _)
Closure(D, S) == LET T == S \cup {x \in All(D) : \E e \in S : Needs(D, x, e)} IN IF T = S THEN S ELSE Closure(D, T)
Parts(L, x) == {<<k, L[k][x[2]]>> : k \in {y \in (CASE x[1] = "n" -> {"pt"} [] x[1] = "w" -> {"ls", "pg"} [] x[1] = "r" -> {"ll", "ar", "rg"}) : x[2] \in DOMAIN L[y]}}
Independent(D, E, gone) == LET L == Load(D) L2 == Load(E) IN \A x \in All(D) \ Closure(D, {gone}) : Parts(L, x) = Parts(L2, x)
NS(k) == CASE k = "pt" -> "n" [] k \in {"ls", "pg"} -> "w" [] OTHER -> "r"
Missing == Mode = "map" => \A x \in Elements(s.m) : Independent(Write(s.m), Pruned(Write(Without(s.m, x))), <<NS(x[1]), x[2]>>)
Separate == [][last'.op \in {"ddel", "drm"} => Independent(s.d, s'.d, <<last'.a[1], last'.a[2]>>)]_<<s, n, last>>
(* the reference loader satisfies the judgement, and reporting fewer or other elements than the damaged ones does not *)
LoadOk == Mode = "doc" => LET L == Load(s.d) d == Defects(s.d, L) IN
  /\ LoadBad(s.d, L, IF d = {} THEN << >> ELSE <<CHOOSE q \in [1..Cardinality(d) -> d] : Range(q) = d>>, << >>) = {}
  /\ d # {} => LoadBad(s.d, L, << >>, << >>) # {}
  /\ n = 0 => d = {}
Key(x) == ToString(<<TLCFP(x), TLCFP(<<x, "second">>)>>)
Emit == PrintT(ToJson([f |-> Key(vw), t |-> Key(vw'), lv |-> TLCGet("level"), op |-> last'.op, a |-> last'.a]))
=============================================================================
