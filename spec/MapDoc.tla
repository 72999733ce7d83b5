------------------------------- MODULE MapDoc -------------------------------
(* Maps, and the documents (OSM files) and archives they are written to: what a document means, which elements of a
   document are intact, and what loading has to deliver and to report for intact and for damaged documents.

   A map M has the layers pt, ls, pg, ll, ar, rg (functions from ids). A reference to a line is <<id, inverted>>.
   A document D has n (nodes), w (ways) and r (relations). Attributes are sets of <<key, value>>. *)
EXTENDS Integers, Sequences, FiniteSets, TLC

Put(f, k, v) == (k :> v) @@ f
Less(f, S) == [x \in DOMAIN f \ S |-> f[x]]
Range(q) == {q[i] : i \in DOMAIN q}
Reverse(q) == [i \in 1..Len(q) |-> q[Len(q) + 1 - i]]
RECURSIVE Flat(_)
Flat(qq) == IF qq = << >> THEN << >> ELSE qq[1] \o Flat(Tail(qq))
RECURSIVE Min(_)
Min(S) == CHOOSE x \in S : \A y \in S : x <= y
Tag(at, k) == IF \E x \in at : x[1] = k THEN (CHOOSE x \in at : x[1] = k)[2] ELSE "none"
Has(at, k) == \E x \in at : x[1] = k
Default(at, k, v) == IF Has(at, k) THEN at ELSE at \cup {<<k, v>>}
SetTag(at, k, v) == {x \in at : x[1] # k} \cup {<<k, v>>}

(* ------------------------------------------------------------------ geometry, on the grid *)
Cross(a, b, c) == (b[1] - a[1]) * (c[2] - a[2]) - (b[2] - a[2]) * (c[1] - a[1])
Seen(W, g) == IF g[2] = 0 THEN W[g[1]] ELSE Reverse(W[g[1]])
(* both bounds lie entirely on the proper side of each other *)
Proper(C, l, r) == /\ Len(l) >= 2 /\ Len(r) >= 2
                   /\ \A i \in 1..(Len(l) - 1), j \in 1..Len(r) : Cross(C[l[i]], C[l[i + 1]], C[r[j]]) < 0
                   /\ \A i \in 1..(Len(r) - 1), j \in 1..Len(l) : Cross(C[r[i]], C[r[i + 1]], C[l[j]]) > 0
(* directions in which two lines are the bounds of a lanelet *)
Directions(C, W, l, r) == {x \in (0..1) \X (0..1) : Proper(C, Seen(W, <<l, x[1]>>), Seen(W, <<r, x[2]>>))}
Dist(a, b) == (a[1] - b[1]) * (a[1] - b[1]) + (a[2] - b[2]) * (a[2] - b[2])
(* doubled coordinates of the middle between two points, against those of a point *)
Mid(a, b) == <<a[1] + b[1], a[2] + b[2]>>
Two(a) == <<2 * a[1], 2 * a[2]>>
(* a centerline goes from the entry to the exit *)
Along(C, l, r, c) == LET entry == Mid(C[l[1]], C[r[1]]) exit == Mid(C[l[Len(l)]], C[r[Len(r)]])
                         a == Two(C[c[1]]) b == Two(C[c[Len(c)]])
                     IN Dist(a, entry) < Dist(a, exit) /\ Dist(b, exit) < Dist(b, entry)
(* rings of lines *)
RingPts(W, ring) == Flat([i \in 1..Len(ring) |-> LET s == Seen(W, ring[i]) IN SubSeq(s, 1, Len(s) - 1)])
RECURSIVE Area2(_, _, _)
Area2(C, q, i) == IF i > Len(q) THEN 0
                  ELSE LET a == C[q[i]] b == C[q[IF i = Len(q) THEN 1 ELSE i + 1]]
                       IN a[1] * b[2] - b[1] * a[2] + Area2(C, q, i + 1)
Sign(x) == IF x > 0 THEN 1 ELSE IF x < 0 THEN -1 ELSE 0
Between(a, b, c) == Cross(a, b, c) = 0 /\ (IF a[1] # b[1] THEN (a[1] <= c[1] /\ c[1] <= b[1]) \/ (b[1] <= c[1] /\ c[1] <= a[1])
                                          ELSE (a[2] <= c[2] /\ c[2] <= b[2]) \/ (b[2] <= c[2] /\ c[2] <= a[2]))
Meet(a, b, c, d) == \/ Sign(Cross(a, b, c)) * Sign(Cross(a, b, d)) < 0 /\ Sign(Cross(c, d, a)) * Sign(Cross(c, d, b)) < 0
                    \/ Between(a, b, c) \/ Between(a, b, d) \/ Between(c, d, a) \/ Between(c, d, b)
Simple(C, q) == LET n == Len(q) nx(i) == IF i = n THEN 1 ELSE i + 1 IN
  /\ n >= 3 /\ \A i, j \in 1..n : i < j => C[q[i]] # C[q[j]]
  /\ \A i \in 1..n : ~Between(C[q[i]], C[q[nx(i)]], C[q[nx(nx(i))]]) /\ ~Between(C[q[nx(nx(i))]], C[q[nx(i)]], C[q[i]])
  /\ \A i, j \in 1..n : i < j /\ nx(i) # j /\ nx(j) # i => ~Meet(C[q[i]], C[q[nx(i)]], C[q[j]], C[q[nx(j)]])
Turned(ring) == [i \in 1..Len(ring) |-> <<ring[Len(ring) + 1 - i][1], 1 - ring[Len(ring) + 1 - i][2]>>]
(* where a ring starts does not matter *)
Canon(ring) == IF ring = << >> THEN ring
               ELSE LET m == Min({ring[i][1] : i \in DOMAIN ring}) k == CHOOSE i \in DOMAIN ring : ring[i][1] = m
                    IN SubSeq(ring, k, Len(ring)) \o SubSeq(ring, 1, k - 1)
First(q) == q[1]
Last(q) == q[Len(q)]
(* how many ends of lines a point is *)
Ends(W, ids, p) == Cardinality({i \in DOMAIN ids : First(W[ids[i]]) = p}) + Cardinality({i \in DOMAIN ids : Last(W[ids[i]]) = p})
RECURSIVE Grow(_, _, _)
Grow(W, ring, rem) ==
  LET end == Last(Seen(W, ring[Len(ring)])) IN
  IF end = First(Seen(W, ring[1])) THEN <<ring, rem>>
  ELSE LET w == CHOOSE x \in rem : First(W[x]) = end \/ Last(W[x]) = end
       IN Grow(W, Append(ring, <<w, IF First(W[w]) = end THEN 0 ELSE 1>>), rem \ {w})
RECURSIVE AllRings(_, _)
AllRings(W, rem) == IF rem = {} THEN {}
                    ELSE LET s == Min(rem) g == Grow(W, <<<<s, 0>>>>, rem \ {s}) IN {g[1]} \cup AllRings(W, g[2])
(* the rings that lines form: "odd" if there is no unique answer *)
Rings(C, W, ids) ==
  LET ps == {First(W[x]) : x \in Range(ids)} \cup {Last(W[x]) : x \in Range(ids)} IN
  IF ids = << >> THEN [is |-> "fine", rings |-> {}]
  ELSE IF Cardinality(Range(ids)) # Len(ids) \/ \E x \in Range(ids) : Len(W[x]) < 2 THEN [is |-> "odd", rings |-> {}]
  ELSE IF \E p \in ps : Ends(W, ids, p) > 2 THEN [is |-> "odd", rings |-> {}]
  ELSE IF \E p \in ps : Ends(W, ids, p) < 2 THEN [is |-> "open", rings |-> {}]
  ELSE LET rs == AllRings(W, Range(ids)) IN
       IF \E g \in rs : ~Simple(C, RingPts(W, g)) THEN [is |-> "odd", rings |-> {}] ELSE [is |-> "fine", rings |-> rs]
(* outer rings run clockwise, holes counter clockwise *)
Oriented(C, W, ring, s) == IF Sign(Area2(C, RingPts(W, ring), 1)) = s THEN ring ELSE Turned(ring)

(* ------------------------------------------------------------------ maps *)
M0 == [pt |-> << >>, ls |-> << >>, pg |-> << >>, ll |-> << >>, ar |-> << >>, rg |-> << >>]
Co(M) == [i \in DOMAIN M.pt |-> M.pt[i].c]
Li(M) == [i \in DOMAIN M.ls |-> M.ls[i].p]
Own(g) == <<g[1], g[2], 1>>
Owns(q) == [i \in DOMAIN q |-> Own(q[i])]
Indexed(pa) == {<<pa[i][1], Cardinality({j \in 1..i : pa[j][1] = pa[i][1]}), pa[i][2], pa[i][3], pa[i][4], 1>> : i \in DOMAIN pa}
Want(M, k, i) ==
  LET e == M[k][i] IN
  CASE k = "pt" -> <<e.c, e.at>>
    [] k \in {"ls", "pg"} -> <<e.p, e.at>>
    [] k = "ll" -> <<Own(e.l), Own(e.r), IF e.c = << >> THEN << >> ELSE <<Own(e.c)>>, [j \in DOMAIN e.re |-> <<e.re[j], 1>>], e.at, 0>>
    [] k = "ar" -> <<Owns(e.o), [j \in DOMAIN e.i |-> Owns(e.i[j])], [j \in DOMAIN e.re |-> <<e.re[j], 1>>], e.at>>
    [] k = "rg" -> <<e.t, Indexed(e.pa), e.at>>
Kinds == {"pt", "ls", "pg", "ll", "ar", "rg"}
AtSet(q) == {<<q[i][1], q[i][2]>> : i \in DOMAIN q}
Get(k, t) ==
  CASE k = "pt" -> <<t[2], AtSet(t[3])>>
    [] k \in {"ls", "pg"} -> <<t[2], AtSet(t[3])>>
    [] k = "ll" -> <<t[2], t[3], t[4], t[5], AtSet(t[6]), t[7]>>
    [] k = "ar" -> <<t[2], t[3], t[4], AtSet(t[5])>>
    [] k = "rg" -> <<t[2], Range(t[3]), AtSet(t[4])>>
(* what an observation says about a layer *)
Layer(o, k) == LET q == o[k] ids == {q[i][1] : i \in DOMAIN q}
               IN [x \in ids |-> Get(k, q[CHOOSE i \in DOMAIN q : q[i][1] = x])]
Obs(o) == TLCEval([k \in Kinds |-> TLCEval(Layer(o, k))])
LinesOf(M, k, i) == IF k = "ll" THEN {M.ll[i].l[1], M.ll[i].r[1]}
                    ELSE {M.ar[i].o[j][1] : j \in DOMAIN M.ar[i].o} \cup UNION {{M.ar[i].i[n][j][1] : j \in DOMAIN M.ar[i].i[n]} : n \in DOMAIN M.ar[i].i}
Users(M) == UNION {{<<x, k, i>> : x \in LinesOf(M, k, i)} : k \in {"ll"}, i \in DOMAIN M.ll}
            \cup UNION {{<<x, "ar", i>> : x \in LinesOf(M, "ar", i)} : i \in DOMAIN M.ar}
(* the map exactly as it was, nothing twice *)
ExactlyBad(M, o) ==
  LET O == Obs(o) IN
  UNION {{<<k, i>> : i \in {x \in DOMAIN M[k] \cup DOMAIN O[k] : x \notin DOMAIN O[k] \/ x \notin DOMAIN M[k] \/ O[k][x] # Want(M, k, x)}} : k \in Kinds}
  \cup (IF o.strangers = << >> THEN {} ELSE {<<"foreign points", 0>>})
  \cup (IF Range(o.us) = Users(M) THEN {} ELSE {<<"usages", 0>>})

(* ------------------------------------------------------------------ writing *)
D0 == [n |-> << >>, w |-> << >>, r |-> << >>]
Way(id, role) == <<"way", id, role>>
Regs(re) == [i \in DOMAIN re |-> <<"relation", re[i], "regulatory_element">>]
TypeOf(k) == CASE k = "pt" -> "node" [] k \in {"ls", "pg"} -> "way" [] k \in {"ll", "ar"} -> "relation"
Write(M) ==
  [n |-> [i \in DOMAIN M.pt |-> [c |-> M.pt[i].c, at |-> M.pt[i].at, dup |-> FALSE]],
   w |-> [i \in DOMAIN M.ls |-> [nd |-> M.ls[i].p, at |-> M.ls[i].at, dup |-> FALSE]]
         @@ [i \in DOMAIN M.pg |-> [nd |-> M.pg[i].p, at |-> Default(M.pg[i].at, "area", "=true"), dup |-> FALSE]],
   r |-> [i \in DOMAIN M.ll |->
            LET e == M.ll[i] IN
            [mem |-> <<Way(e.l[1], "left"), Way(e.r[1], "right")>> \o (IF e.c = << >> THEN << >> ELSE <<Way(e.c[1], "centerline")>>) \o Regs(e.re),
             at |-> Default(e.at, "type", "=lanelet"), dup |-> FALSE]]
         @@ [i \in DOMAIN M.ar |->
            LET e == M.ar[i] IN
            [mem |-> [j \in DOMAIN e.o |-> Way(e.o[j][1], "outer")] \o (LET f == Flat(e.i) IN [j \in DOMAIN f |-> Way(f[j][1], "inner")]) \o Regs(e.re),
             at |-> Default(e.at, "type", "=multipolygon"), dup |-> FALSE]]
         @@ [i \in DOMAIN M.rg |->
            LET e == M.rg[i] IN
            [mem |-> [j \in DOMAIN e.pa |-> <<TypeOf(e.pa[j][2]), e.pa[j][3], e.pa[j][1]>>],
             at |-> Default(e.at, "type", "=regulatory_element"), dup |-> FALSE]]]
(* references to elements that are not written are left out *)
There(D, m) == CASE m[1] = "node" -> m[2] \in DOMAIN D.n [] m[1] = "way" -> m[2] \in DOMAIN D.w
                 [] m[1] = "relation" -> m[2] \in DOMAIN D.r [] OTHER -> FALSE
Pruned(D) == LET D1 == [D EXCEPT !.w = Less(@, {w \in DOMAIN @ : \E j \in DOMAIN @[w].nd : @[w].nd[j] \notin DOMAIN D.n})] IN
             [D1 EXCEPT !.r = [i \in DOMAIN @ |-> [@[i] EXCEPT !.mem = SelectSeq(@, LAMBDA m : There(D1, m))]]]
(* elements of which something could not be written *)
Unwritable(D) == {w \in DOMAIN D.w : \E j \in DOMAIN D.w[w].nd : D.w[w].nd[j] \notin DOMAIN D.n}
                 \cup LET D1 == [D EXCEPT !.w = Less(@, {w \in DOMAIN @ : \E j \in DOMAIN @[w].nd : @[w].nd[j] \notin DOMAIN D.n})]
                      IN {i \in DOMAIN D.r : \E j \in DOMAIN D.r[i].mem : ~There(D1, D.r[i].mem[j])}

(* ------------------------------------------------------------------ reading *)
IsArea(e) == Tag(e.at, "area") \in {"=true", "=yes", "=1"}
Role(e, role) == SelectSeq(e.mem, LAMBDA m : m[3] = role)
Typed(D, t) == {i \in DOMAIN D.r : Tag(D.r[i].at, "type") = t}
Known == {"=traffic_light", "=right_of_way", "=speed_limit", "=traffic_sign", "=all_way_stop", "=regulatory_element"}
Class(t) == CASE t = "=traffic_light" -> "traffic_light" [] t = "=right_of_way" -> "right_of_way" [] t = "=speed_limit" -> "speed_limit"
              [] t = "=traffic_sign" -> "traffic_sign" [] t = "=all_way_stop" -> "all_way_stop" [] t = "=regulatory_element" -> "regulatory_element"

WayIntact(D, w) == Len(D.w[w].nd) > 0 /\ \A j \in DOMAIN D.w[w].nd : D.w[w].nd[j] \in DOMAIN D.n
DCo(D) == [i \in DOMAIN D.n |-> D.n[i].c]
(* of the following, O tells which elements exist after loading *)
DLi(D, O) == [i \in DOMAIN O.ls |-> O.ls[i][1]]
Dangling(D, e) == \E j \in DOMAIN e.mem : ~There(D, e.mem[j])
BorderIntact(O, e, role) == LET m == Role(e, role) IN Len(m) = 1 /\ m[1][1] = "way" /\ m[1][2] \in DOMAIN O.ls
RegsIntact(O, e) == \A m \in Range(Role(e, "regulatory_element")) : m[1] = "relation" /\ m[2] \in DOMAIN O.rg
LlIntact(D, O, e) == /\ ~Dangling(D, e) /\ BorderIntact(O, e, "left") /\ BorderIntact(O, e, "right")
                     /\ (Role(e, "centerline") = << >> \/ BorderIntact(O, e, "centerline")) /\ RegsIntact(O, e)
LinesIntact(O, ms) == \A m \in Range(ms) : m[1] = "way" /\ m[2] \in DOMAIN O.ls
Ids(ms) == [j \in DOMAIN ms |-> ms[j][2]]
RingsOf(D, O, e, role) == IF LinesIntact(O, Role(e, role)) THEN Rings(DCo(D), DLi(D, O), Ids(Role(e, role))) ELSE [is |-> "open", rings |-> {}]
ArState(D, O, e) ==
  IF Dangling(D, e) \/ ~RegsIntact(O, e) THEN "bad"
  ELSE LET o == RingsOf(D, O, e, "outer") i == RingsOf(D, O, e, "inner") IN
       IF o.is = "open" \/ i.is = "open" \/ Role(e, "outer") = << >> THEN "bad"
       ELSE IF o.is = "odd" \/ i.is = "odd" THEN "odd"
       ELSE IF Cardinality(o.rings) # 1 THEN "bad" ELSE "fine"
KindOf(D, O, m) ==
  CASE m[1] = "node" -> IF m[2] \in DOMAIN O.pt THEN "pt" ELSE "none"
    [] m[1] = "way" -> IF m[2] \in DOMAIN O.ls THEN "ls" ELSE IF m[2] \in DOMAIN O.pg THEN "pg" ELSE "none"
    [] m[1] = "relation" -> IF m[2] \notin DOMAIN D.r THEN "none"
                            ELSE IF Tag(D.r[m[2]].at, "type") = "=lanelet" /\ m[2] \in DOMAIN O.ll THEN "ll"
                            ELSE IF Tag(D.r[m[2]].at, "type") = "=multipolygon" /\ m[2] \in DOMAIN O.ar THEN "ar" ELSE "none"
    [] OTHER -> "none"
Resolved(D, O, e) == SelectSeq(e.mem, LAMBDA m : KindOf(D, O, m) # "none")
Params(D, O, e) == LET q == Resolved(D, O, e) IN [j \in DOMAIN q |-> <<q[j][3], KindOf(D, O, q[j]), q[j][2], 0>>]
OfRole(pa, role, kinds) == SelectSeq(pa, LAMBDA x : x[1] = role /\ x[2] \in kinds)
Creatable(D, t, at, pa) ==
  CASE t = "=traffic_light" -> Len(OfRole(pa, "refers", {"ls", "pg"})) > 0 /\ Len(OfRole(pa, "ref_line", {"ls"})) <= 1
    [] t = "=right_of_way" -> Len(OfRole(pa, "right_of_way", {"ll"})) > 0 /\ Len(OfRole(pa, "yield", {"ll"})) > 0
    [] t \in {"=traffic_sign", "=speed_limit"} ->
         LET s == OfRole(pa, "refers", {"ls", "pg"}) IN IF s # << >> THEN Has(D.w[s[1][3]].at, "subtype") ELSE Has(at, "sign_type")
    [] t = "=all_way_stop" -> /\ OfRole(pa, "right_of_way", {"pt", "ls", "pg", "ll", "ar"}) = << >>
                              /\ LET l == OfRole(pa, "ref_line", {"pt", "ls", "pg", "ll", "ar"}) y == OfRole(pa, "yield", {"pt", "ls", "pg", "ll", "ar"})
                                 IN l = << >> \/ Len(l) = Len(y)
    [] t = "=regulatory_element" -> TRUE
    [] OTHER -> FALSE
RgIntact(D, O, e) == /\ \A m \in Range(e.mem) : KindOf(D, O, m) # "none"
                     /\ Creatable(D, Tag(e.at, "subtype"), e.at, Params(D, O, e))

(* ---- what has to be true of the loaded lanelets, areas and regulatory elements *)
LegalRef(g, id, ms, O) == IF g[3] = 1 THEN \E m \in Range(ms) : m[1] = "way" /\ m[2] = g[1] /\ g[1] \in DOMAIN O.ls
                          ELSE g[3] = 0 /\ (g[1] = id \/ \E m \in Range(ms) : m[2] = g[1])
Owned(q) == SelectSeq(q, LAMBDA x : x[Len(x)] = 1)
(* references to regulatory elements: all that exist, in order, and nothing else but placeholders *)
LegalRegs(q, O, e) == LET ms == Role(e, "regulatory_element") ok == SelectSeq(ms, LAMBDA m : m[1] = "relation" /\ m[2] \in DOMAIN O.rg) IN
                      /\ [j \in DOMAIN Owned(q) |-> Owned(q)[j][1]] = Ids(ok)
                      /\ \A x \in Range(q) : x[2] = 1 \/ \E m \in Range(ms) : m[2] = x[1]
LlOk(D, O, id, e) ==
  LET g == O.ll[id] l == Role(e, "left") r == Role(e, "right") c == Role(e, "centerline") C == DCo(D) W == DLi(D, O) IN
  /\ g[5] = e.at /\ g[6] = 0
  /\ IF LlIntact(D, O, e)
     THEN LET d == Directions(C, W, l[1][2], r[1][2]) IN
          /\ g[1][1] = l[1][2] /\ g[1][3] = 1 /\ g[2][1] = r[1][2] /\ g[2][3] = 1
          /\ d # {} => <<g[1][2], g[2][2]>> \in d
          /\ g[4] = [j \in DOMAIN Role(e, "regulatory_element") |-> <<Role(e, "regulatory_element")[j][2], 1>>]
          /\ IF c = << >> THEN g[3] = << >>
             ELSE /\ Len(g[3]) = 1 /\ g[3][1][1] = c[1][2] /\ g[3][1][3] = 1
                  /\ d # {} => LET fits == {x \in 0..1 : Along(C, Seen(W, g[1]), Seen(W, g[2]), Seen(W, <<c[1][2], x>>))}
                               IN fits # {} => g[3][1][2] \in fits
     ELSE /\ LegalRef(g[1], id, l, O) /\ LegalRef(g[2], id, r, O)
          /\ \A x \in Range(g[3]) : LegalRef(x, id, c, O)
          /\ LegalRegs(g[4], O, e)
RingOf(q) == [j \in DOMAIN q |-> <<q[j][1], q[j][2]>>]
ArOk(D, O, id, e) ==
  LET g == O.ar[id] C == DCo(D) W == DLi(D, O) st == ArState(D, O, e)
      legal(q, role) == \A x \in Range(q) : x[3] = 1 /\ \E m \in Range(Role(e, role)) : m[1] = "way" /\ m[2] = x[1]
  IN
  /\ g[4] = e.at /\ legal(g[1], "outer") /\ \A q \in Range(g[2]) : legal(q, "inner")
  /\ LegalRegs(g[3], O, e)
  /\ st = "fine" =>
       /\ Canon(RingOf(g[1])) = Canon(Oriented(C, W, CHOOSE x \in RingsOf(D, O, e, "outer").rings : TRUE, -1))
       /\ {Canon(RingOf(q)) : q \in Range(g[2])} = {Canon(Oriented(C, W, x, 1)) : x \in RingsOf(D, O, e, "inner").rings}
       /\ Len(g[2]) = Cardinality(RingsOf(D, O, e, "inner").rings)
  (* whatever could be completed is a ring *)
  /\ st = "bad" => \A q \in Range(<<g[1]>> \o g[2]) :
       Len(q) > 0 /\ \A j \in DOMAIN q : Last(Seen(W, q[j])) = First(Seen(W, q[IF j = Len(q) THEN 1 ELSE j + 1]))
RgOk(D, O, id, e) ==
  LET g == O.rg[id] pa == Params(D, O, e) roles == {m[3] : m \in Range(e.mem)}
      kept(role) == LET q == SelectSeq(pa, LAMBDA x : x[1] = role) IN [j \in DOMAIN q |-> <<q[j][2], q[j][3], q[j][4]>>]
      own(role) == {x \in g[2] : x[1] = role /\ x[6] = 1}
      nth(role, k) == CHOOSE x \in own(role) : Cardinality({y \in own(role) : y[2] <= x[2]}) = k
  IN
  /\ g[1] = Class(Tag(e.at, "subtype")) /\ g[3] = e.at
  /\ IF RgIntact(D, O, e) THEN g[2] = Indexed(pa)
     ELSE /\ \A role \in roles : [k \in 1..Cardinality(own(role)) |-> <<nth(role, k)[3], nth(role, k)[4], nth(role, k)[5]>>] = kept(role)
          /\ \A x \in g[2] : x[1] \in roles /\ (x[6] = 1 \/ x[3] = "gone" \/ \E m \in Range(e.mem) : m[3] = x[1] /\ m[2] = x[4])

(* elements of the document that something is wrong with, given what exists after loading *)
Defects(D, O) ==
  {w \in DOMAIN D.w : ~WayIntact(D, w)}
  \cup {i \in Typed(D, "=lanelet") : ~LlIntact(D, O, D.r[i])}
  \cup {i \in Typed(D, "=multipolygon") : ArState(D, O, D.r[i]) = "bad"}
  \cup {i \in Typed(D, "=regulatory_element") : ~RgIntact(D, O, D.r[i])}
(* those that may be reported without having to *)
Dubious(D, O) ==
  {i \in Typed(D, "=multipolygon") : ArState(D, O, D.r[i]) = "odd"}
  \cup {i \in DOMAIN D.r : Tag(D.r[i].at, "type") \notin {"=lanelet", "=multipolygon", "=regulatory_element"} /\ Dangling(D, D.r[i])}
  \cup {i \in DOMAIN D.n : D.n[i].dup} \cup {i \in DOMAIN D.w : D.w[i].dup} \cup {i \in DOMAIN D.r : D.r[i].dup}
IsSub(a, b) == \A x \in Range(a) : x \in Range(b)
LoadBad(D, O, errs, strangers) ==
  LET named == UNION {Range(errs[k]) : k \in DOMAIN errs}
      def == Defects(D, O) dub == Dubious(D, O)
      lines == {w \in DOMAIN D.w : WayIntact(D, w)}
      ls == {w \in lines : ~IsArea(D.w[w])} pg == lines \ ls
      rl == Typed(D, "=lanelet") ra == Typed(D, "=multipolygon") rr == Typed(D, "=regulatory_element")
  IN
  {<<"node", i>> : i \in {x \in DOMAIN D.n \cup DOMAIN O.pt : x \notin DOMAIN D.n \/ x \notin DOMAIN O.pt \/ O.pt[x] # <<D.n[x].c, D.n[x].at>>}}
  \cup {<<"line", i>> : i \in {x \in ls : x \notin DOMAIN O.ls \/ x \in DOMAIN O.pg \/ O.ls[x] # <<D.w[x].nd, D.w[x].at>>}}
  \cup {<<"polygon", i>> : i \in {x \in pg : x \notin DOMAIN O.pg \/ x \in DOMAIN O.ls \/ O.pg[x] # <<D.w[x].nd, D.w[x].at>>}}
  \cup {<<"way", i>> : i \in {x \in (DOMAIN O.ls \cup DOMAIN O.pg) \ lines :
                               x \notin DOMAIN D.w \/ ~IsSub(IF x \in DOMAIN O.ls THEN O.ls[x][1] ELSE O.pg[x][1], D.w[x].nd)}}
  \cup {<<"lanelet", i>> : i \in {x \in rl \cup DOMAIN O.ll : IF x \notin rl THEN TRUE
                                   ELSE IF x \in DOMAIN O.ll THEN ~LlOk(D, O, x, D.r[x]) ELSE LlIntact(D, O, D.r[x])}}
  \cup {<<"area", i>> : i \in {x \in ra \cup DOMAIN O.ar : IF x \notin ra THEN TRUE
                                   ELSE IF x \in DOMAIN O.ar THEN ~ArOk(D, O, x, D.r[x]) ELSE ArState(D, O, D.r[x]) = "fine"}}
  \cup {<<"regulatory element", i>> : i \in {x \in rr \cup DOMAIN O.rg : IF x \notin rr THEN TRUE
                                   ELSE IF x \in DOMAIN O.rg THEN ~RgOk(D, O, x, D.r[x]) ELSE RgIntact(D, O, D.r[x])}}
  \cup {<<"not reported", i>> : i \in def \ named}
  \cup {<<"false report", k>> : k \in {x \in DOMAIN errs : Range(errs[x]) \cap (def \cup dub) = {}}}
  \cup {<<"foreign point", i>> : i \in Range(strangers)}
(* who uses which line string, in the map that was loaded *)
UsageBad(O, us) ==
  LET own(g) == IF g[3] = 1 THEN {g[1]} ELSE {}
      owns(q) == UNION {own(x) : x \in Range(q)}
      want == UNION {{<<x, "ll", i>> : x \in own(O.ll[i][1]) \cup own(O.ll[i][2])} : i \in DOMAIN O.ll}
              \cup UNION {{<<x, "ar", i>> : x \in owns(O.ar[i][1]) \cup UNION {owns(q) : q \in Range(O.ar[i][2])}} : i \in DOMAIN O.ar}
  IN IF Range(us) = want THEN {} ELSE {<<"usages", 0>>}

(* elements that are in the document twice: either version counts *)
Alt(k, e) == CASE k = "n" -> [e EXCEPT !.c[1] = @ + 1] [] k = "w" -> [e EXCEPT !.nd = Reverse(@)] [] k = "r" -> [e EXCEPT !.at = SetTag(@, "dup", "=1")]
Dups(D) == {x \in {"n", "w", "r"} \X (DOMAIN D.n \cup DOMAIN D.w \cup DOMAIN D.r) : x[2] \in DOMAIN D[x[1]] /\ D[x[1]][x[2]].dup}
Version(D, S) == [k \in {"n", "w", "r"} |-> [i \in DOMAIN D[k] |-> IF <<k, i>> \in S THEN Alt(k, D[k][i]) ELSE D[k][i]]]
RECURSIVE Smallest(_, _)
(* the complaints of the version of the document that fits best *)
Smallest(bads, k) == IF \E b \in bads : Cardinality(b) <= k THEN CHOOSE b \in bads : Cardinality(b) <= k ELSE Smallest(bads, k + 1)
DocBad(D, o) == LET O == Obs(o) IN
                IF Dups(D) = {} THEN LoadBad(D, O, o.le, o.strangers)
                ELSE Smallest({LoadBad(Version(D, S), O, o.le, o.strangers) : S \in SUBSET Dups(D)}, 0)
LoadedBad(D, o) == DocBad(D, o) \cup UsageBad(Obs(o), o.us)
(* writing and loading *)
TripBad(M, D, o) == LoadedBad(Pruned(D), o)
                    \cup {<<"not written, not reported", i>> : i \in Unwritable(D) \ UNION {Range(o.we[k]) : k \in DOMAIN o.we}}
                    \cup {<<"false report of the writer", k>> : k \in {x \in DOMAIN o.we : Range(o.we[x]) \cap Unwritable(D) = {}}}

(* the map that an observation shows *)
Back(g) == <<g[1], g[2]>>
Backs(q) == [j \in DOMAIN q |-> Back(q[j])]
RECURSIVE ParamSeq(_)
ParamSeq(S) == IF S = {} THEN << >>
               ELSE LET x == CHOOSE y \in S : \A z \in S : z[1] = y[1] => z[2] >= y[2] IN <<<<x[1], x[3], x[4], x[5]>>>> \o ParamSeq(S \ {x})
Shown(o) ==
  LET O == Obs(o) IN
  [pt |-> [i \in DOMAIN O.pt |-> [c |-> O.pt[i][1], at |-> O.pt[i][2]]],
   ls |-> [i \in DOMAIN O.ls |-> [p |-> O.ls[i][1], at |-> O.ls[i][2]]],
   pg |-> [i \in DOMAIN O.pg |-> [p |-> O.pg[i][1], at |-> O.pg[i][2]]],
   ll |-> [i \in DOMAIN O.ll |-> LET g == O.ll[i] IN [l |-> Back(g[1]), r |-> Back(g[2]), c |-> IF g[3] = << >> THEN << >> ELSE Back(g[3][1]),
                                                      re |-> [j \in DOMAIN g[4] |-> g[4][j][1]], at |-> g[5]]],
   ar |-> [i \in DOMAIN O.ar |-> LET g == O.ar[i] IN [o |-> Backs(g[1]), i |-> [j \in DOMAIN g[2] |-> Backs(g[2][j])],
                                                      re |-> [j \in DOMAIN g[3] |-> g[3][j][1]], at |-> g[4]]],
   rg |-> [i \in DOMAIN O.rg |-> LET g == O.rg[i] IN [t |-> g[1], pa |-> ParamSeq(g[2]), at |-> g[3]]]]

(* ------------------------------------------------------------------ a reference loader, for checking the above against itself *)
Load(D) ==
  LET lines == {w \in DOMAIN D.w : WayIntact(D, w)}
      pt == [i \in DOMAIN D.n |-> <<D.n[i].c, D.n[i].at>>]
      ls == [i \in {w \in lines : ~IsArea(D.w[w])} |-> <<D.w[i].nd, D.w[i].at>>]
      pg == [i \in {w \in lines : IsArea(D.w[w])} |-> <<D.w[i].nd, D.w[i].at>>]
      C == DCo(D) W == [i \in DOMAIN ls |-> ls[i][1]]
      O1 == [pt |-> pt, ls |-> ls, pg |-> pg, ll |-> << >>, ar |-> << >>, rg |-> << >>]
      llok(e) == BorderIntact(O1, e, "left") /\ BorderIntact(O1, e, "right") /\ (Role(e, "centerline") = << >> \/ BorderIntact(O1, e, "centerline"))
      llids == {i \in Typed(D, "=lanelet") : llok(D.r[i])}
      arok(e) == LET o == RingsOf(D, O1, e, "outer") IN o.is = "fine" /\ Cardinality(o.rings) = 1
      arids == {i \in Typed(D, "=multipolygon") : arok(D.r[i])}
      O2 == [O1 EXCEPT !.ll = [i \in llids |-> i], !.ar = [i \in arids |-> i]]
      rgids == {i \in Typed(D, "=regulatory_element") : Creatable(D, Tag(D.r[i].at, "subtype"), D.r[i].at, Params(D, O2, D.r[i]))}
      rg == [i \in rgids |-> <<Class(Tag(D.r[i].at, "subtype")), Indexed(Params(D, O2, D.r[i])), D.r[i].at>>]
      regs(e) == LET q == SelectSeq(Role(e, "regulatory_element"), LAMBDA m : m[1] = "relation" /\ m[2] \in rgids) IN [j \in DOMAIN q |-> <<q[j][2], 1>>]
      ll == [i \in llids |->
               LET e == D.r[i] l == Role(e, "left")[1][2] r == Role(e, "right")[1][2] ds == Directions(C, W, l, r)
                   d == IF ds = {} THEN <<0, 0>> ELSE CHOOSE x \in ds : TRUE
                   c == Role(e, "centerline")
                   fit == IF c = << >> THEN {} ELSE {x \in 0..1 : Along(C, Seen(W, <<l, d[1]>>), Seen(W, <<r, d[2]>>), Seen(W, <<c[1][2], x>>))}
               IN <<<<l, d[1], 1>>, <<r, d[2], 1>>,
                    IF c = << >> THEN << >> ELSE <<<<c[1][2], IF fit = {} THEN 0 ELSE CHOOSE x \in fit : TRUE, 1>>>>,
                    regs(e), e.at, 0>>]
      inner(e) == RingsOf(D, O1, [e EXCEPT !.mem = SelectSeq(@, LAMBDA m : m[3] = "inner" /\ m[1] = "way" /\ m[2] \in DOMAIN ls)], "inner")
      setToSeq(S) == CHOOSE q \in [1..Cardinality(S) -> S] : Range(q) = S
      ar == [i \in arids |->
               LET e == D.r[i] hs == inner(e) IN
               <<Owns(Oriented(C, W, CHOOSE x \in RingsOf(D, O1, e, "outer").rings : TRUE, -1)),
                 IF hs.is = "fine" THEN setToSeq({Owns(Oriented(C, W, x, 1)) : x \in hs.rings}) ELSE << >>, regs(e), e.at>>]
  IN [pt |-> pt, ls |-> ls, pg |-> pg, ll |-> ll, ar |-> ar, rg |-> rg]

(* ------------------------------------------------------------------ operations *)
Relational == {"dump", "osm", "bin", "less", "fresh", "load"}
Ok(s, out) == [st |-> s, ok |-> TRUE, out |-> out]
Done == [ok |-> TRUE]
S0 == [m |-> M0, d |-> D0]
Pairs(a, i) == [j \in 1..((Len(a) - i + 1) \div 2) |-> <<a[i + 2 * (j - 1)], a[i + 2 * (j - 1) + 1]>>]
RECURSIVE Split(_, _)
Split(q, cur) == IF q = << >> THEN <<cur>> ELSE IF q[1][1] = 0 THEN <<cur>> \o Split(Tail(q), << >>) ELSE Split(Tail(q), Append(cur, q[1]))
Quads(a, i) == [j \in 1..((Len(a) - i + 1) \div 4) |-> LET k == i + 4 * (j - 1) IN <<a[k], a[k + 1], a[k + 2], a[k + 3]>>]
Rest(a, i) == SubSeq(a, i, Len(a))
RemAt(q, i) == SubSeq(q, 1, i - 1) \o SubSeq(q, i + 1, Len(q))
LK(k) == CASE k = "pt" -> "pt" [] OTHER -> k
Apply(s, op, a) ==
  LET M == s.m D == s.d
      map(x) == [s EXCEPT !.m = x] doc(x) == [s EXCEPT !.d = x]
  IN
  CASE op = "pt" -> map([M EXCEPT !.pt = Put(@, a[1], [c |-> <<a[2], a[3], a[4], a[5]>>, at |-> {}])])
    [] op = "mv" -> map([M EXCEPT !.pt[a[1]].c = <<a[2], a[3], a[4], a[5]>>])
    [] op = "li" -> map([M EXCEPT !.ls = Put(@, a[1], [p |-> Rest(a, 2), at |-> {}])])
    [] op = "ls" -> map([M EXCEPT !.ls = Put(@, a[1], [p |-> Rest(a, 2), at |-> {}])])
    [] op = "pg" -> map([M EXCEPT !.pg = Put(@, a[1], [p |-> Rest(a, 2), at |-> {}])])
    [] op = "push" -> map([M EXCEPT !.ls[a[1]].p = Append(@, a[2])])
    [] op = "ll" -> map([M EXCEPT !.ll = Put(@, a[1], [l |-> <<a[2], a[3]>>, r |-> <<a[4], a[5]>>, c |-> IF Len(a) > 5 THEN <<a[6], a[7]>> ELSE << >>,
                                                      re |-> << >>, at |-> {}])])
    [] op = "setl" -> map([M EXCEPT !.ll[a[1]].l = <<a[2], a[3]>>])
    [] op = "setr" -> map([M EXCEPT !.ll[a[1]].r = <<a[2], a[3]>>])
    [] op = "setc" -> map([M EXCEPT !.ll[a[1]].c = <<a[2], a[3]>>])
    [] op = "ar" -> LET rs == Split(Pairs(a, 2), << >>) IN
                    map([M EXCEPT !.ar = Put(@, a[1], [o |-> rs[1], i |-> Tail(rs), re |-> << >>, at |-> {}])])
    [] op = "rg" -> map([M EXCEPT !.rg = Put(@, a[1], [t |-> a[2], pa |-> Quads(a, 3), at |-> {<<"subtype", "=" \o a[2]>>}])])
    [] op = "re" -> IF a[1] = "ll" THEN map([M EXCEPT !.ll[a[2]].re = Append(@, a[3])]) ELSE map([M EXCEPT !.ar[a[2]].re = Append(@, a[3])])
    [] op = "at" -> (CASE a[1] = "pt" -> map([M EXCEPT !.pt[a[2]].at = SetTag(@, a[3], a[4])])
                      [] a[1] = "ls" -> map([M EXCEPT !.ls[a[2]].at = SetTag(@, a[3], a[4])])
                      [] a[1] = "pg" -> map([M EXCEPT !.pg[a[2]].at = SetTag(@, a[3], a[4])])
                      [] a[1] = "ll" -> map([M EXCEPT !.ll[a[2]].at = SetTag(@, a[3], a[4])])
                      [] a[1] = "ar" -> map([M EXCEPT !.ar[a[2]].at = SetTag(@, a[3], a[4])])
                      [] a[1] = "rg" -> map([M EXCEPT !.rg[a[2]].at = SetTag(@, a[3], a[4])]))
    [] op = "dn" -> doc([D EXCEPT !.n = Put(@, a[2], [c |-> <<a[3], a[4], a[5], a[6]>>, at |-> {}, dup |-> FALSE])])
    [] op = "dw" -> doc([D EXCEPT !.w = Put(@, a[2], [nd |-> Rest(a, 3), at |-> {}, dup |-> FALSE])])
    [] op = "dr" -> doc([D EXCEPT !.r = Put(@, a[2], [mem |-> << >>, at |-> {}, dup |-> FALSE])])
    [] op = "dm" -> doc([D EXCEPT !.r[a[2]].mem = Append(@, <<a[3], a[4], a[5]>>)])
    [] op = "dt" -> (CASE a[1] = "n" -> doc([D EXCEPT !.n[a[2]].at = SetTag(@, a[3], a[4])])
                      [] a[1] = "w" -> doc([D EXCEPT !.w[a[2]].at = SetTag(@, a[3], a[4])])
                      [] a[1] = "r" -> doc([D EXCEPT !.r[a[2]].at = SetTag(@, a[3], a[4])]))
    [] op = "dut" -> LET un(at) == {x \in at : x[1] # a[3]} IN
                     (CASE a[1] = "n" -> doc([D EXCEPT !.n[a[2]].at = un(@)])
                       [] a[1] = "w" -> doc([D EXCEPT !.w[a[2]].at = un(@)])
                       [] a[1] = "r" -> doc([D EXCEPT !.r[a[2]].at = un(@)]))
    [] op \in {"ddel", "drm"} -> (CASE a[1] = "n" -> doc([D EXCEPT !.n = Less(@, {a[2]})])
                                   [] a[1] = "w" -> doc([D EXCEPT !.w = Less(@, {a[2]})])
                                   [] a[1] = "r" -> doc([D EXCEPT !.r = Less(@, {a[2]})]))
    [] op = "ddup" -> (CASE a[1] = "n" -> doc([D EXCEPT !.n[a[2]].dup = TRUE])
                        [] a[1] = "w" -> doc([D EXCEPT !.w[a[2]].dup = TRUE])
                        [] a[1] = "r" -> doc([D EXCEPT !.r[a[2]].dup = TRUE]))
    [] op = "dum" -> doc([D EXCEPT !.r[a[2]].mem = RemAt(@, a[3])])
    [] op = "dsm" -> doc([D EXCEPT !.r[a[2]].mem[a[3]] = <<a[4], a[5], a[6]>>])
    [] op = "dun" -> doc([D EXCEPT !.w[a[2]].nd = RemAt(@, a[3])])
    [] op = "dsn" -> doc([D EXCEPT !.w[a[2]].nd[a[3]] = a[4]])
Bad(s, bad, st) == [st |-> st, ok |-> bad = {}, out |-> [wrong |-> bad]]
Judge(bad, s, o) == IF bad = {} THEN [st |-> [s EXCEPT !.m = Shown(o)], ok |-> TRUE, out |-> [wrong |-> {}]] ELSE Bad(s, bad, s)
NoElevation(M) == [M EXCEPT !.pt = [i \in DOMAIN @ |-> [@[i] EXCEPT !.c = <<@[1], @[2], @[3], @[4]>>]]]
Step(s, e) ==
  LET op == e.op a == e.a o == e.o IN
  CASE op = "reset" -> Ok(S0, Done)
    [] op \in Relational /\ "ex" \in DOMAIN o -> Bad(s, {<<o.ex, 0>>}, s)
    [] op = "fresh" -> Bad(s, IF "clash" \in DOMAIN o THEN {<<"id given twice", x>> : x \in Range(o.clash)} ELSE {<<"no answer", 0>>}, s)
    [] op \in Relational /\ "us" \notin DOMAIN o -> Bad(s, {<<"no answer", 0>>}, s)
    (* who uses what is only told for elements as they were when they became part of the map *)
    [] op = "dump" -> Bad(s, ExactlyBad(s.m, o) \ {<<"usages", 0>>}, s)
    [] op = "bin" -> Bad(s, ExactlyBad(s.m, o) \cup {<<"error", k>> : k \in DOMAIN o.we} \cup {<<"error", k>> : k \in DOMAIN o.le}, s)
    [] op = "osm" -> LET b == TripBad(s.m, Write(s.m), o) IN IF a # << >> /\ a[1] = "ele" THEN Bad(s, b, s) ELSE Judge(b, s, o)
    [] op = "less" -> LET gone(k) == {Pairs(a, 1)[j][2] : j \in {x \in DOMAIN Pairs(a, 1) : Pairs(a, 1)[x][1] = k}}
                          part == [k \in Kinds |-> Less(s.m[k], gone(k))]
                      IN Bad(s, TripBad(part, Write(part), o), s)
    [] op = "load" -> Judge(LoadedBad(s.d, o) \cup (IF o.threw = (o.le # << >>) THEN {} ELSE {<<"wrongly thrown or not", 0>>}), s, o)
    [] OTHER -> Ok(Apply(s, op, a), Done)
=============================================================================
