------------------------------ MODULE CompSeq ------------------------------
(* C22 - compound line strings, compound polygons and lanelet sequences: views that present their parts as one.
   State: the points of the line strings, the bounds and regulatory elements of the lanelets, and which parts (line string or
   lanelet with a direction) every compound consists of. Compounds hold no points: changes of the parts show immediately. *)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt, TLC

M0 == [line |-> << >>, comp |-> << >>, llt |-> << >>, sq |-> << >>]   \* << >>: the empty function
Put(f, k, v) == [x \in DOMAIN f \cup {k} |-> IF x = k THEN v ELSE f[x]]
Flip(h) == <<h[1], 1 - h[2]>>
FlipIf(h, inv) == IF inv = 1 THEN Flip(h) ELSE h
SeeParts(ps, inv) == IF inv = 1 THEN [i \in 1..Len(ps) |-> Flip(ps[Len(ps) + 1 - i])] ELSE ps
Pairs(a, k) == [i \in 1..((Len(a) - k) \div 2) |-> <<a[k + 2 * i - 1], a[k + 2 * i]>>]

SeePts(M, h) == IF h[2] = 1 THEN Reverse(M.line[h[1]]) ELSE M.line[h[1]]
RECURSIVE Cat(_)
Cat(qs) == IF qs = << >> THEN << >> ELSE qs[1] \o Cat(Tail(qs))
(* a point following itself appears once *)
RECURSIVE Uniq(_)
Uniq(q) == IF Len(q) <= 1 THEN q ELSE IF q[1] = q[2] THEN Uniq(Tail(q)) ELSE <<q[1]>> \o Uniq(Tail(q))
View(M, ps) == Uniq(Cat([i \in 1..Len(ps) |-> SeePts(M, ps[i])]))

(* ---------------------------------------------------------------- compounds *)
Segs(q, poly) == IF ~poly THEN [i \in 1..(IF Len(q) <= 1 THEN 0 ELSE Len(q) - 1) |-> <<q[i], q[i + 1]>>]
                 ELSE [i \in 1..(IF Len(q) < 2 THEN 0 ELSE Len(q)) |-> <<q[i], IF i = Len(q) THEN q[1] ELSE q[i + 1]>>]
Probe1(M, ps, poly) == LET q == View(M, ps) n == Len(q) IN
  [ size |-> n, empty |-> n = 0, index |-> q, iter |-> q, back |-> Reverse(q), basic |-> q, dim |-> q, shape |-> q,
    ends |-> IF n = 0 THEN << >> ELSE <<q[1], q[n]>>, jumps |-> TRUE,
    segs |-> Segs(q, poly), closing |-> IF n = 0 THEN << >> ELSE <<q[n], q[1]>>,
    ids |-> [i \in 1..Len(ps) |-> ps[i][1]], lines |-> ps,
    eqs |-> <<TRUE, TRUE, SeeParts(ps, 1) = ps, TRUE>> ]
N(k, v) == [i \in 1..k |-> v]
Has(q) == [p \in 1..8 |-> \E i \in 1..Len(q) : q[i] = p]
Probe(M, c, inv) == LET ps == SeeParts(M.comp[c], inv) IN
  [ k |-> N(4, Probe1(M, ps, FALSE)) \o N(4, Probe1(M, ps, TRUE)), has |-> Has(View(M, ps)), inverted |-> inv = 1 ]

(* ---------------------------------------------------------------- lanelets and their sequences *)
Left(M, h) == LET l == M.llt[h[1]] IN IF h[2] = 1 THEN Flip(l.r) ELSE l.l
Right(M, h) == LET l == M.llt[h[1]] IN IF h[2] = 1 THEN Flip(l.l) ELSE l.r
Center(M, h) == LET c == M.llt[h[1]].c IN IF c = << >> THEN c ELSE FlipIf(c, h[2])
Lights(re) == SelectSeq(re, LAMBDA x : x % 2 = 0)
SProbe(M, s, inv) ==
  LET hs == SeeParts(M.sq[s], inv) fw == M.sq[s]
      L == [i \in 1..Len(hs) |-> Left(M, hs[i])] R == [i \in 1..Len(hs) |-> Right(M, hs[i])] C == [i \in 1..Len(hs) |-> Center(M, hs[i])]
      known == \A i \in 1..Len(C) : C[i] # << >>
      re == Cat([i \in 1..Len(hs) |-> M.llt[hs[i][1]].re])
      fL == [i \in 1..Len(fw) |-> Left(M, fw[i])] fR == [i \in 1..Len(fw) |-> Right(M, fw[i])]
  IN [ size |-> Len(hs), empty |-> hs = << >>, lanelets |-> hs, iter |-> hs, index |-> hs, ids |-> [i \in 1..Len(hs) |-> hs[i][1]],
       left |-> View(M, L), leftlines |-> L, right |-> View(M, R), rightlines |-> R, same2d |-> TRUE,
       center |-> IF known THEN View(M, C) ELSE << >>, centerparts |-> TRUE,
       poly |-> View(M, fL \o SeeParts(fR, 1)),
       re |-> re, lights |-> Lights(re), limits |-> SelectSeq(re, LAMBDA x : x % 2 = 1),
       has |-> [p \in 1..8 |-> Has(View(M, L))[p] \/ Has(View(M, R))[p]],
       eqs |-> <<TRUE, TRUE, SeeParts(hs, 1) = hs>>, inverted |-> inv = 1 ]

(* ---------------------------------------------------------------- operations *)
Ok(M) == [st |-> M, out |-> [ok |-> TRUE]]
Edit(M, n, inv, q) == Ok([M EXCEPT !.line[n] = IF inv = 1 THEN Reverse(q) ELSE q])
Step(M, e) == LET op == e.op a == e.a IN
  CASE op = "reset" -> Ok(M0)
    [] op = "line" -> Ok([M EXCEPT !.line = Put(M.line, a[1], Tail(a))])
    [] op = "push" -> Edit(M, a[1], a[2], Append(SeePts(M, <<a[1], a[2]>>), a[3]))
    [] op = "pop" -> LET q == SeePts(M, <<a[1], a[2]>>) IN Edit(M, a[1], a[2], IF q = << >> THEN q ELSE SubSeq(q, 1, Len(q) - 1))
    [] op = "comp" -> Ok([M EXCEPT !.comp = Put(M.comp, a[1], Pairs(a, 1))])
    [] op = "compc" -> LET ps == Pairs(a, 1) IN
         Ok([M EXCEPT !.comp = Put(M.comp, a[1], Cat([i \in 1..Len(ps) |-> SeeParts(M.comp[ps[i][1]], ps[i][2])]))])
    [] op = "llt" -> Ok([M EXCEPT !.llt = Put(M.llt, a[1], [l |-> <<a[2], a[3]>>, r |-> <<a[4], a[5]>>, c |-> << >>, re |-> << >>])])
    [] op = "setl" -> Ok(IF a[2] = 1 THEN [M EXCEPT !.llt[a[1]].r = <<a[3], 1 - a[4]>>] ELSE [M EXCEPT !.llt[a[1]].l = <<a[3], a[4]>>])
    [] op = "setr" -> Ok(IF a[2] = 1 THEN [M EXCEPT !.llt[a[1]].l = <<a[3], 1 - a[4]>>] ELSE [M EXCEPT !.llt[a[1]].r = <<a[3], a[4]>>])
    [] op = "setc" -> Ok([M EXCEPT !.llt[a[1]].c = FlipIf(<<a[3], a[4]>>, a[2])])
    [] op = "addre" -> Ok([M EXCEPT !.llt[a[1]].re = Append(@, a[2])])
    [] op = "seq" -> Ok([M EXCEPT !.sq = Put(M.sq, a[1], Pairs(a, 1))])
    [] op = "seqs" -> LET ps == Pairs(a, 1) IN
         Ok([M EXCEPT !.sq = Put(M.sq, a[1], Cat([i \in 1..Len(ps) |-> SeeParts(M.sq[ps[i][1]], ps[i][2])]))])
    [] op = "probe" -> [st |-> M, out |-> Probe(M, a[1], a[2])]
    [] op = "sprobe" -> [st |-> M, out |-> SProbe(M, a[1], a[2])]
=============================================================================
