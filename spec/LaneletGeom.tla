---------------------------- MODULE LaneletGeom ----------------------------
(* C09 - what lanelets and areas show of their bounds.
   pt    point -> <<x, y, z>> (small integers)         line  line string -> points
   ll    lanelet data: left, right bound (<<line, inverted>>), custom centerline (<< >> or <<line, inverted>>), attribute, regulatory
         elements; dirty: points or lines of a bound changed in place since the caches were reset - then a computed centerline is not
         specified (as documented, the lanelet is not told)
   h     handle -> <<data, inverted>>; all handles of the same data show the same
   area  outer bound, inner bounds (line strings), attribute, regulatory elements;  ah  handle -> area *)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt, TLC

M0 == [pt |-> << >>, line |-> << >>, ll |-> << >>, h |-> << >>, area |-> << >>, ah |-> << >>]
Put(f, x, v) == (x :> v) @@ f
Ok(M, out) == [st |-> M, ok |-> TRUE, out |-> out]
Inv(q) == <<q[1], 1 - q[2]>>
Pts(M, q) == IF q[2] = 0 THEN M.line[q[1]] ELSE Reverse(M.line[q[1]])
RECURSIVE Flat(_)
Flat(qs) == IF qs = << >> THEN << >> ELSE qs[1] \o Flat(Tail(qs))
RECURSIVE Uniq(_)
Uniq(q) == IF Len(q) < 2 THEN q ELSE IF q[1] = q[2] THEN Uniq(Tail(q)) ELSE <<q[1]>> \o Uniq(Tail(q))
Pairs(a) == [i \in 1..(Len(a) \div 2) |-> <<a[2 * i - 1], a[2 * i]>>]
SplitAt(a) == LET cut == {i \in 1..Len(a) : a[i] = 0 /\ i % 2 = 1} IN cut
(* a list of handles; <<0, 0>> separates rings *)
RECURSIVE Rings(_, _)
Rings(ps, cur) == IF ps = << >> THEN <<cur>> ELSE IF ps[1][1] = 0 THEN <<cur>> \o Rings(Tail(ps), << >>) ELSE Rings(Tail(ps), Append(cur, ps[1]))

(* ---- as seen through a handle *)
Left(M, g) == LET d == M.ll[g[1]] IN IF g[2] = 1 THEN Inv(d.r) ELSE d.l
Right(M, g) == LET d == M.ll[g[1]] IN IF g[2] = 1 THEN Inv(d.l) ELSE d.r
Turn(g, q) == IF g[2] = 1 THEN Reverse(q) ELSE q

(* ---- computed centerlines, in half units *)
Sum(p, q) == <<p[1] + q[1], p[2] + q[2], p[3] + q[3]>>
Dbl(p) == Sum(p, p)
Cross(a, b, c) == (b[1] - a[1]) * (c[2] - a[2]) - (b[2] - a[2]) * (c[1] - a[1])
Opp(x, y) == (x > 0 /\ y < 0) \/ (x < 0 /\ y > 0)
Crosses(a, b, c, d) == Opp(Cross(a, b, c), Cross(a, b, d)) /\ Opp(Cross(c, d, a), Cross(c, d, b))
(* pairs of a left and a right point the k-th centerline point can stand for, advancing on one side at a time *)
RECURSIVE Path(_, _, _, _, _)
Path(L, R, c, k, S) ==
  IF k > Len(c) THEN S
  ELSE LET Nx == UNION {{<<i, x[2]>> : i \in (x[1] + 1)..Len(L)} \cup {<<x[1], j>> : j \in (x[2] + 1)..Len(R)} : x \in S}
       IN Path(L, R, c, k + 1, {x \in Nx : Sum(L[x[1]], R[x[2]]) = c[k]})
Belongs(L, R, same, c) ==
  IF Len(L) = 0 \/ Len(R) = 0 THEN c = << >>
  ELSE LET n == Len(c)
           start == {<<1, 1>>} \cup (IF same /\ Len(L) > 1 THEN {<<2, 1>>} ELSE {})
       IN /\ n >= 1
          /\ c[1] = Sum(L[1], R[1]) /\ c[n] = Sum(L[Len(L)], R[Len(R)])
          /\ (n > 1 => Path(L, R, SubSeq(c, 1, n - 1), 2, start) # {})
          (* never across a bound, except for the connection to the last point if there is no other *)
          /\ \A k \in 1..(n - 2) : /\ \A i \in 1..(Len(L) - 1) : ~Crosses(c[k], c[k + 1], Dbl(L[i]), Dbl(L[i + 1]))
                                   /\ \A i \in 1..(Len(R) - 1) : ~Crosses(c[k], c[k + 1], Dbl(R[i]), Dbl(R[i + 1]))
Co(M, q) == [i \in 1..Len(q) |-> M.pt[q[i]]]
Dbls(q) == [i \in 1..Len(q) |-> Dbl(q[i])]
Flat2(q) == [i \in 1..Len(q) |-> <<q[i][1], q[i][2]>>]

(* everything but the values of a computed centerline *)
Shown(M, g) == LET d == M.ll[g[1]] l == Left(M, g) r == Right(M, g)
                   lp == Pts(M, l) rp == Pts(M, r)
                   out == Uniq(Pts(M, d.l) \o Reverse(Pts(M, d.r)))
               IN [id |-> g[1], inv |-> g[2], l |-> l, r |-> r, lp |-> lp, rp |-> rp, lp2 |-> lp, rp2 |-> rp,
                   il |-> Reverse(rp), ir |-> Reverse(lp), back |-> TRUE,
                   custom |-> d.c # << >>,
                   cid |-> IF d.c = << >> THEN << >> ELSE IF g[2] = 1 THEN Inv(d.c) ELSE d.c,
                   at |-> d.at, re |-> d.re]
(* the outline: left bound, then the right one backwards, starting with either *)
OutlineOk(M, g, q) == LET d == M.ll[g[1]] a == Pts(M, d.l) b == Pts(M, d.r) IN
                      q = Uniq(a \o Reverse(b)) \/ (g[2] = 1 /\ q = Uniq(Reverse(b) \o a))
CenterOk(M, g, o) == LET d == M.ll[g[1]] IN
  IF d.c # << >> THEN /\ o.c = Dbls(Co(M, Turn(g, Pts(M, d.c))))
  ELSE LET L == Co(M, Pts(M, d.l)) R == Co(M, Pts(M, d.r))
           same == Len(L) > 0 /\ Len(R) > 0 /\ Pts(M, d.l)[1] = Pts(M, d.r)[1]
       IN d.dirty \/ (o.c = Turn(g, o.ref) /\ Belongs(L, R, same, o.ref))
ProbeOk(M, g, o) == /\ "c" \in DOMAIN o
                    /\ [x \in DOMAIN Shown(M, g) |-> o[x]] = Shown(M, g)
                    /\ OutlineOk(M, g, o.poly) /\ o.poly2 = o.poly
                    /\ CenterOk(M, g, o) /\ o.c2 = Flat2(o.c) /\ o.ic = Reverse(o.c)
AShown(M, a) == LET d == M.area[a] ring(ps) == Uniq(Flat([i \in 1..Len(ps) |-> Pts(M, ps[i])]))
                    o == ring(d.o) IN
                [id |-> a, o |-> d.o, i |-> d.i, op |-> o, ip |-> [k \in 1..Len(d.i) |-> ring(d.i[k])],
                 b3 |-> Co(M, o), b2 |-> Flat2(Co(M, o)), bh |-> [k \in 1..Len(d.i) |-> Flat2(Co(M, ring(d.i[k])))], at |-> d.at, re |-> d.re]

(* ---- changes *)
Touch(M, L) == [M EXCEPT !.ll = [d \in DOMAIN @ |-> IF @[d].l[1] \in L \/ @[d].r[1] \in L THEN [@[d] EXCEPT !.dirty = TRUE] ELSE @[d]]]
Using(M, p) == {n \in DOMAIN M.line : \E i \in 1..Len(M.line[n]) : M.line[n][i] = p}
(* the caches are reset only if the bound is really another one *)
SetL(d, q) == IF d.l = q THEN d ELSE [d EXCEPT !.l = q, !.dirty = FALSE]
SetR(d, q) == IF d.r = q THEN d ELSE [d EXCEPT !.r = q, !.dirty = FALSE]
Data(M, n, f(_)) == [M EXCEPT !.ll[n] = f(@)]
Del(q, x) == LET i == CHOOSE k \in 1..Len(q) : q[k] = x /\ \A j \in 1..(k - 1) : q[j] # x IN SubSeq(q, 1, i - 1) \o SubSeq(q, i + 1, Len(q))
Has(q, x) == \E i \in 1..Len(q) : q[i] = x
Ins(q, v, p) == IF v = 0 THEN Append(q, p) ELSE <<p>> \o q
Rem(q, v) == IF q = << >> THEN q ELSE IF v = 0 THEN SubSeq(q, 1, Len(q) - 1) ELSE Tail(q)
Done == [ok |-> TRUE]
Kinds == {"c", "ci", "c2", "h", "p", "b", "ib"}
(* one concurrent reading: <<kind, value>> *)
ReadOk(M, g, ref, x) ==
  LET d == M.ll[g[1]]
      cl == IF d.c # << >> THEN Dbls(Co(M, Turn(g, Pts(M, d.c)))) ELSE Turn(g, ref) IN
  CASE x[1] = "c" -> x[2] = cl
    [] x[1] = "ci" -> x[2] = Reverse(cl)
    [] x[1] = "c2" -> x[2] = Flat2(cl)
    [] x[1] = "h" -> x[2] = (IF d.c # << >> THEN <<<<1>>>> ELSE <<<<0>>>>)
    [] x[1] = "p" -> OutlineOk(M, g, x[2][1])
    [] x[1] = "b" -> x[2] = <<Pts(M, Left(M, g)), Pts(M, Right(M, g))>>
    [] x[1] = "r" -> TRUE
ConcOk(M, g, o) == /\ "rs" \in DOMAIN o
                   /\ (M.ll[g[1]].c = << >> => LET d == M.ll[g[1]] L == Pts(M, d.l) R == Pts(M, d.r) IN
                          Belongs(Co(M, L), Co(M, R), Len(L) > 0 /\ Len(R) > 0 /\ L[1] = R[1], o.ref))
                   /\ \A i \in 1..Len(o.rs) : ReadOk(M, g, o.ref, o.rs[i])

Step(M, e) == LET op == e.op a == e.a o == e.o IN
  CASE op = "reset" -> Ok(M0, Done)
    [] op = "pt" -> LET M1 == [M EXCEPT !.pt = Put(@, a[1], <<a[2], a[3], a[4]>>)] IN Ok(Touch(M1, Using(M, a[1])), Done)
    [] op = "line" -> Ok([M EXCEPT !.line = Put(@, a[1], Tail(a))], Done)
    [] op = "push" -> Ok(Touch([M EXCEPT !.line[a[1]] = Ins(@, a[2], a[3])], {a[1]}), Done)
    [] op = "pop" -> Ok(IF M.line[a[1]] = << >> THEN M ELSE Touch([M EXCEPT !.line[a[1]] = Rem(@, a[2])], {a[1]}), Done)
    [] op = "llt" ->       \* data = handle, left, right
         Ok([M EXCEPT !.ll = Put(@, a[1], [l |-> <<a[2], a[3]>>, r |-> <<a[4], a[5]>>, c |-> << >>, at |-> 0, re |-> << >>, dirty |-> FALSE]),
                      !.h = Put(@, a[1], <<a[1], 0>>)], Done)
    [] op = "handle" ->    \* how, new handle, from
         LET g == M.h[a[3]] IN Ok([M EXCEPT !.h = Put(@, a[2], IF a[1] \in {"inv", "cinv"} THEN Inv(g) ELSE g)], Done)
    [] op = "setl" -> LET g == M.h[a[1]] q == <<a[2], a[3]>> IN
         Ok(Data(M, g[1], LAMBDA d : IF g[2] = 1 THEN SetR(d, Inv(q)) ELSE SetL(d, q)), Done)
    [] op = "setr" -> LET g == M.h[a[1]] q == <<a[2], a[3]>> IN
         Ok(Data(M, g[1], LAMBDA d : IF g[2] = 1 THEN SetL(d, Inv(q)) ELSE SetR(d, q)), Done)
    [] op = "setc" -> LET g == M.h[a[1]] q == <<a[2], a[3]>> IN
         Ok(Data(M, g[1], LAMBDA d : [d EXCEPT !.c = IF g[2] = 1 THEN Inv(q) ELSE q]), Done)
    [] op = "attr" -> Ok(Data(M, M.h[a[1]][1], LAMBDA d : [d EXCEPT !.at = a[2]]), Done)
    [] op = "addre" -> Ok(Data(M, M.h[a[1]][1], LAMBDA d : [d EXCEPT !.re = Append(@, a[2])]), Done)
    [] op = "remre" -> LET d == M.ll[M.h[a[1]][1]] IN
         IF Has(d.re, a[2]) THEN Ok(Data(M, M.h[a[1]][1], LAMBDA x : [x EXCEPT !.re = Del(@, a[2])]), Done) ELSE Ok(M, [ok |-> FALSE])
    [] op = "fresh" -> Ok(Data(M, M.h[a[1]][1], LAMBDA d : [d EXCEPT !.dirty = FALSE]), Done)     \* resetCache
    [] op \in {"map", "submap"} -> Ok(M, Done)
    [] op = "probe" -> [st |-> M, ok |-> ProbeOk(M, M.h[a[1]], o), out |-> Shown(M, M.h[a[1]])]
    [] op = "area" -> Ok([M EXCEPT !.area = Put(@, a[1], [o |-> Pairs(Tail(a)), i |-> << >>, at |-> 0, re |-> << >>]),
                                   !.ah = Put(@, a[1], a[1])], Done)
    [] op = "ahandle" -> Ok([M EXCEPT !.ah = Put(@, a[2], M.ah[a[3]])], Done)
    [] op = "outer" -> Ok([M EXCEPT !.area[M.ah[a[1]]].o = Pairs(Tail(a))], Done)
    [] op = "inner" -> Ok([M EXCEPT !.area[M.ah[a[1]]].i = IF Len(a) = 1 THEN << >> ELSE Rings(Pairs(Tail(a)), << >>)], Done)
    [] op = "aattr" -> Ok([M EXCEPT !.area[M.ah[a[1]]].at = a[2]], Done)
    [] op = "aaddre" -> Ok([M EXCEPT !.area[M.ah[a[1]]].re = Append(@, a[2])], Done)
    [] op = "aremre" -> LET n == M.ah[a[1]] IN IF Has(M.area[n].re, a[2]) THEN Ok([M EXCEPT !.area[n].re = Del(@, a[2])], Done) ELSE Ok(M, [ok |-> FALSE])
    [] op = "aprobe" -> Ok(M, AShown(M, M.ah[a[1]]))
    [] op = "explore" -> [st |-> M, ok |-> ConcOk(M, M.h[a[1]], o), out |-> Shown(M, M.h[a[1]])]
    [] op = "race" -> [st |-> M, ok |-> "races" \in DOMAIN o /\ o.races = 0 /\ ConcOk(M, M.h[a[1]], o), out |-> Shown(M, M.h[a[1]])]
Relational == {"probe", "explore", "race"}
=============================================================================
