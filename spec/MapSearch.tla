----------------------------- MODULE MapSearch -----------------------------
(* C04 - spatial queries of map layers against a linear scan. Distances are exact: squares of distances are fractions <<n, d>>.
   Elements: names with the layer as first character: p(oint) l(ine string) g (polygon) t (lanelet) a(rea) r(egulatory element).
   A shape is a set of parts: [k |-> "chain" | "ring", q |-> points, h |-> rings cut out of a ring]. *)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt, FiniteSetsExt, TLC

Fn(k, v) == k :> v
M0 == [xyz |-> << >>, pts |-> << >>, own |-> << >>, shape |-> << >>, box |-> << >>, maps |-> [m \in 1..3 |-> {}], cut |-> << >>]
Put(f, k, v) == IF k \in DOMAIN f THEN [f EXCEPT ![k] = v] ELSE f @@ (k :> v)
Kind(n) == SubSeq(n, 1, 1)

(* ---------------------------------------------------------------- geometry *)
Sq(x) == x * x
D2(p, q) == Sq(p[1] - q[1]) + Sq(p[2] - q[2])
Cross(a, b, p) == (b[1] - a[1]) * (p[2] - a[2]) - (b[2] - a[2]) * (p[1] - a[1])
Dot(a, b, p) == (b[1] - a[1]) * (p[1] - a[1]) + (b[2] - a[2]) * (p[2] - a[2])
Less(x, y) == x[1] * y[2] < y[1] * x[2]
MinF(S) == CHOOSE x \in S : \A y \in S : ~Less(y, x)
PSeg(p, a, b) == LET l == D2(a, b) t == Dot(a, b, p) IN
   IF t <= 0 THEN <<D2(p, a), 1>> ELSE IF t >= l THEN <<D2(p, b), 1>> ELSE <<Sq(Cross(a, b, p)), l>>
Sgn(x) == IF x > 0 THEN 1 ELSE IF x < 0 THEN -1 ELSE 0
OnSeg(p, a, b) == Cross(a, b, p) = 0 /\ \A i \in {1, 2} : Min({a[i], b[i]}) <= p[i] /\ p[i] <= Max({a[i], b[i]})
Meet(a, b, c, d) == \/ OnSeg(a, c, d) \/ OnSeg(b, c, d) \/ OnSeg(c, a, b) \/ OnSeg(d, a, b)
                    \/ Sgn(Cross(a, b, c)) * Sgn(Cross(a, b, d)) < 0 /\ Sgn(Cross(c, d, a)) * Sgn(Cross(c, d, b)) < 0
SegSeg(a, b, c, d) == IF Meet(a, b, c, d) THEN <<0, 1>> ELSE MinF({PSeg(a, c, d), PSeg(b, c, d), PSeg(c, a, b), PSeg(d, a, b)})
ChainSegs(q) == IF Len(q) = 1 THEN {<<q[1], q[1]>>} ELSE {<<q[i], q[i + 1]>> : i \in 1..(Len(q) - 1)}
RingSegs(q) == {<<q[i], IF i = Len(q) THEN q[1] ELSE q[i + 1]>> : i \in 1..Len(q)}
(* strictly inside; only used for points that are not on the boundary *)
InRing(p, q) == Cardinality({i \in 1..Len(q) : LET a == q[i] b == IF i = Len(q) THEN q[1] ELSE q[i + 1] IN
     (a[2] > p[2]) # (b[2] > p[2]) /\ (IF b[2] > a[2] THEN Cross(a, b, p) > 0 ELSE Cross(a, b, p) < 0)}) % 2 = 1
Inside(p, part) == part.k = "ring" /\ InRing(p, part.q) /\ \A i \in DOMAIN part.h : ~InRing(p, part.h[i])
OnEdge(p, q) == \E e \in RingSegs(q) : OnSeg(p, e[1], e[2])
Segs(part) == IF part.k = "chain" THEN ChainSegs(part.q) ELSE RingSegs(part.q) \cup UNION {RingSegs(part.h[i]) : i \in DOMAIN part.h}
PDist(p, part) == IF Inside(p, part) THEN <<0, 1>> ELSE MinF({PSeg(p, e[1], e[2]) : e \in Segs(part)})
Dist(p, shape) == MinF({PDist(p, part) : part \in shape})
(* between two shapes *)
SDist1(x, y) == IF Inside(x.q[1], y) \/ Inside(y.q[1], x) THEN <<0, 1>>
                ELSE MinF({SegSeg(e[1], e[2], f[1], f[2]) : e \in Segs(x), f \in Segs(y)})
SDist(X, Y) == MinF({SDist1(x, y) : x \in X, y \in Y})
(* an observed distance in hundredths *)
Near(dm, d) == Sq(Max({dm - 1, 0})) * d[2] <= d[1] * 10000 /\ d[1] * 10000 <= Sq(dm + 1) * d[2]

PartPts(part) == {part.q[i] : i \in 1..Len(part.q)} \cup UNION {{part.h[j][i] : i \in 1..Len(part.h[j])} : j \in DOMAIN part.h}
BoxOf(shape) == LET ps == UNION {PartPts(x) : x \in shape} IN
   IF ps = {} THEN << >> ELSE <<Min({p[1] : p \in ps}), Min({p[2] : p \in ps}), Max({p[1] : p \in ps}), Max({p[2] : p \in ps})>>
Touch(b, c) == b[1] <= c[3] /\ c[1] <= b[3] /\ b[2] <= c[4] /\ c[2] <= b[4]
BoxD(b, p) == Sq(Max({b[1] - p[1], 0, p[1] - b[3]})) + Sq(Max({b[2] - p[2], 0, p[2] - b[4]}))

(* ---------------------------------------------------------------- operations *)
XY(M, n) == <<M.xyz[n][1], M.xyz[n][2]>>
See(M, h) == IF h[2] = 1 THEN Reverse(M.pts[h[1]]) ELSE M.pts[h[1]]
Pairs(a, k) == [i \in 1..((Len(a) - k) \div 2) |-> <<a[k + 2 * i - 1], a[k + 2 * i]>>]
RECURSIVE Ring(_, _)
Ring(M, hs) == IF hs = << >> THEN << >> ELSE See(M, hs[1]) \o Ring(M, Tail(hs))
Chain(q) == IF q = << >> THEN {} ELSE {[k |-> "chain", q |-> q, h |-> << >>]}
RingPart(q, h) == IF q = << >> THEN {} ELSE {[k |-> "ring", q |-> q, h |-> h]}
New(M, n, shape, own) == [M EXCEPT !.shape = Put(@, n, shape), !.box = Put(@, n, BoxOf(shape)), !.own = Put(@, n, own)]
RECURSIVE Closure(_, _)
Closure(M, n) == {n} \cup UNION {Closure(M, x) : x \in M.own[n]}
Layer(M, m, k) == {n \in M.maps[m] : Kind(n) = k}
Indexed(M, m, k) == {n \in Layer(M, m, k) : M.box[n] # << >>}
Ok(M) == [st |-> M, ok |-> TRUE, out |-> [ok |-> TRUE]]

NoRep(q) == Cardinality({q[i] : i \in 1..Len(q)}) = Len(q)
SetOf(q) == {q[i] : i \in 1..Len(q)}
(* r: what a layer returned for the n nearest boxes *)
NearestOk(M, E, p, n, r) ==
  /\ NoRep(r) /\ SetOf(r) \subseteq E /\ Len(r) = Min({n, Cardinality(E)})
  /\ \A x \in SetOf(r), y \in E \ SetOf(r) : BoxD(M.box[x], p) <= BoxD(M.box[y], p)
(* v: the elements a predicate was shown, accepting the k-th one *)
UntilOk(E, k, r) ==
  /\ NoRep(r.v) /\ SetOf(r.v) \subseteq E /\ r.boxes
  /\ IF k > 0 /\ k <= Cardinality(E) THEN Len(r.v) = k /\ r.r = <<r.v[k]>> ELSE Len(r.v) = Cardinality(E) /\ r.r = << >>
NUntilOk(M, E, p, k, r) ==
  /\ UntilOk(E, k, r)
  /\ \A i \in 1..(Len(r.v) - 1) : BoxD(M.box[r.v[i]], p) <= BoxD(M.box[r.v[i + 1]], p)
  /\ \A x \in SetOf(r.v), y \in E \ SetOf(r.v) : BoxD(M.box[x], p) <= BoxD(M.box[y], p)
(* r: pairs <<name, distance>> *)
Ranked(D, r) == /\ NoRep([i \in 1..Len(r) |-> r[i][1]]) /\ \A i \in 1..Len(r) : r[i][1] \in DOMAIN D /\ Near(r[i][2], D[r[i][1]])
                /\ \A i \in 1..(Len(r) - 1) : ~Less(D[r[i + 1][1]], D[r[i][1]])
FNearOk(D, n, r) == LET R == {r[i][1] : i \in 1..Len(r)} IN
  Ranked(D, r) /\ Len(r) = Min({n, Cardinality(DOMAIN D)}) /\ \A x \in R, y \in DOMAIN D \ R : ~Less(D[y], D[x])
(* limit in hundredths: no distance is equal to it. With limit 0 elements touching only with a slanted edge may be missed *)
FWithOk(D, lim, sure, r) == LET R == {r[i][1] : i \in 1..Len(r)} L == <<Sq(lim), 10000>> IN
  /\ Ranked(D, r)
  /\ \A x \in R : Less(D[x], L) \/ D[x][1] = 0
  /\ \A x \in DOMAIN D \ R : ~Less(D[x], L) /\ (D[x][1] = 0 => x \notin sure)

GeomShape(M, g) == \* geometry of a query: <<"pt", x, y>> or <<"el", name>>
  IF g[1] = "pt" THEN {[k |-> "chain", q |-> <<<<g[2], g[3]>>>>, h |-> << >>]} ELSE M.shape[g[2]]
Certain(X, Y) == \E x \in X, y \in Y : Inside(x.q[1], y) \/ Inside(y.q[1], x) \/ \E i \in 1..Len(x.q), j \in 1..Len(y.q) : x.q[i] = y.q[j]

D3(p, q) == Sq(p[1] - q[1]) + Sq(p[2] - q[2]) + Sq(p[3] - q[3])
Dot3(a, b, p) == (b[1] - a[1]) * (p[1] - a[1]) + (b[2] - a[2]) * (p[2] - a[2]) + (b[3] - a[3]) * (p[3] - a[3])
PSeg3(p, a, b) == LET l == D3(a, b) t == Dot3(a, b, p) IN
   IF t <= 0 THEN <<D3(p, a), 1>> ELSE IF t >= l THEN <<D3(p, b), 1>> ELSE <<D3(p, a) * l - Sq(t), l>>
Pts3(M, n) == IF Kind(n) = "p" THEN <<M.xyz[n]>> ELSE [i \in 1..Len(M.cut[n]) |-> M.xyz[M.cut[n][i]]]
Dist3(M, p, n) == LET q == Pts3(M, n) IN IF Len(q) = 1 THEN <<D3(p, q[1]), 1>> ELSE MinF({PSeg3(p, e[1], e[2]) : e \in ChainSegs(q)})

Queries == {"box", "nearest", "nuntil", "suntil", "fnear", "fwith", "fwithg", "fwith3"}
Both(o, P(_)) == "r" \in DOMAIN o /\ P(o.r) /\ P(o.c)
Step(M, e) == LET op == e.op a == e.a IN
  CASE op = "reset" -> Ok(M0)
    [] op = "pt" -> Ok(New([M EXCEPT !.xyz = Put(@, a[1], <<a[2], a[3], a[4]>>)], a[1], Chain(<<<<a[2], a[3]>>>>), {}))
    [] op \in {"line", "poly"} -> LET q == [i \in 1..(Len(a) - 1) |-> XY(M, a[i + 1])] N == [M EXCEPT !.pts = Put(@, a[1], q), !.cut = Put(@, a[1], Tail(a))] IN
         Ok(New(N, a[1], IF op = "line" THEN Chain(q) ELSE RingPart(q, << >>), {a[i] : i \in 2..Len(a)}))
    [] op = "llt" -> Ok(New(M, a[1], RingPart(See(M, <<a[2], a[3]>>) \o Reverse(See(M, <<a[4], a[5]>>)), << >>), {a[2], a[4]}))
    [] op = "area" -> LET hs == Pairs(a, 1) IN Ok(New(M, a[1], RingPart(Ring(M, hs), << >>), {hs[i][1] : i \in 1..Len(hs)}))
    [] op = "hole" -> LET hs == Pairs(a, 1) s == CHOOSE x \in M.shape[a[1]] : TRUE IN
         Ok(New(M, a[1], {[s EXCEPT !.h = Append(@, Ring(M, hs))]}, M.own[a[1]] \cup {hs[i][1] : i \in 1..Len(hs)}))
    [] op = "re" -> LET ps == {a[i] : i \in 2..Len(a)} IN Ok(New(M, a[1], UNION {M.shape[x] : x \in ps}, ps))
    [] op = "add" -> Ok([M EXCEPT !.maps[a[1]] = @ \cup (IF a[1] = 3 THEN {a[2]} ELSE Closure(M, a[2]))])
    [] op = "copy" -> Ok([M EXCEPT !.maps[2] = M.maps[1]])
    [] op = "box" -> LET E == {n \in Indexed(M, a[1], a[2]) : Touch(M.box[n], <<a[3], a[4], a[5], a[6]>>)} IN
         [st |-> M, ok |-> Both(e.o, LAMBDA r : NoRep(r) /\ SetOf(r) = E), out |-> E]
    [] op = "nearest" -> LET E == Indexed(M, a[1], a[2]) IN
         [st |-> M, ok |-> Both(e.o, LAMBDA r : NearestOk(M, E, <<a[3], a[4]>>, a[5], r)), out |-> [n \in E |-> BoxD(M.box[n], <<a[3], a[4]>>)]]
    [] op = "nuntil" -> LET E == Indexed(M, a[1], a[2]) IN
         [st |-> M, ok |-> Both(e.o, LAMBDA r : NUntilOk(M, E, <<a[3], a[4]>>, a[5], r)), out |-> [n \in E |-> BoxD(M.box[n], <<a[3], a[4]>>)]]
    [] op = "suntil" -> LET E == {n \in Indexed(M, a[1], a[2]) : Touch(M.box[n], <<a[3], a[4], a[5], a[6]>>)} IN
         [st |-> M, ok |-> Both(e.o, LAMBDA r : UntilOk(E, a[7], r)), out |-> E]
    [] op = "fnear" -> LET D == TLCEval([n \in Indexed(M, a[1], a[2]) |-> Dist(<<a[3], a[4]>>, M.shape[n])]) IN
         [st |-> M, ok |-> Both(e.o, LAMBDA r : FNearOk(D, a[5], r)), out |-> D]
    [] op \in {"fwith", "fwithg"} ->        \* point / geometry of an element
         LET X == IF op = "fwith" THEN {[k |-> "chain", q |-> <<<<a[4], a[5]>>>>, h |-> << >>]} ELSE M.shape[a[4]]
             E == Indexed(M, a[1], a[2])
             D == TLCEval([n \in E |-> IF op = "fwith" THEN Dist(<<a[4], a[5]>>, M.shape[n]) ELSE SDist(X, M.shape[n])])
             sure == {n \in E : Certain(X, M.shape[n])}
         IN [st |-> M, ok |-> Both(e.o, LAMBDA r : FWithOk(D, a[3], sure, r)), out |-> D]
    [] op = "fwith3" -> LET D == TLCEval([n \in Indexed(M, a[1], a[2]) |-> Dist3(M, <<a[4], a[5], a[6]>>, n)]) IN
         [st |-> M, ok |-> Both(e.o, LAMBDA r : FWithOk(D, a[3], {n \in DOMAIN D : Kind(n) = "p"}, r)), out |-> D]
=============================================================================
