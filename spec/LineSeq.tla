------------------------------ MODULE LineSeq ------------------------------
(* C08 - linestrings and polygons as views of shared point sequences.
   State: for every data object (slot) the sequence of point ids in stored direction, and for every point its coordinates.
   A handle is a (slot, kind, inverted) triple: it has no state of its own. Kinds: L3 L2 P3 P2 (line string / polygon). *)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt, TLC

CONSTANTS Slots, Pts       \* Pts: ids of the named points; 0 is the id of anonymous points created by resize

Coord0(p) == <<p, 10 * p, 100 * p>>
S0 == [seq |-> [d \in Slots |-> << >>], xyz |-> [p \in Pts \cup {0} |-> Coord0(p)]]

See(q, inv) == IF inv = 1 THEN Reverse(q) ELSE q            \* what a handle sees; its own inverse

Cut(q, i) == SubSeq(q, 1, i - 1) \o SubSeq(q, i + 1, Len(q))
Ins(q, i, new) == SubSeq(q, 1, i) \o new \o SubSeq(q, i + 1, Len(q))    \* before the element with index i (0 based)

RangePos(i, inv, k) == IF inv = 1 /\ k > 0 THEN i + k - 1 ELSE i
Zeros(n) == [i \in 1..n |-> 0]
Tail3(a, n) == [i \in 1..(Len(a) - n) |-> a[n + i]]

(* -------- observation of one slot: all kinds, both directions -------- *)
Crd3(s, q) == [i \in 1..Len(q) |-> s.xyz[q[i]]]
Crd2(s, q) == [i \in 1..Len(q) |-> <<s.xyz[q[i]][1], s.xyz[q[i]][2]>>]
N(k, v) == [i \in 1..k |-> v]
View(s, d) == LET q == s.seq[d] r == Reverse(q) IN
  [ fwd |-> N(8, q), inv |-> N(8, r),
    h3 |-> N(2, Crd3(s, q)), h3i |-> N(2, Crd3(s, r)), h2 |-> N(2, Crd2(s, q)), h2i |-> N(2, Crd2(s, r)) ]

(* everything else one can ask a handle *)
Segs(q, k) == IF k \in {"L3", "L2"}
              THEN [i \in 1..(IF Len(q) <= 1 THEN 0 ELSE Len(q) - 1) |-> <<q[i], q[i + 1]>>]
              ELSE [i \in 1..(IF Len(q) < 2 THEN 0 ELSE Len(q)) |-> <<q[i], IF i = Len(q) THEN q[1] ELSE q[i + 1]>>]
Probe(s, d, k, inv) == LET q == See(s.seq[d], inv) IN
  [ size |-> Len(q), empty |-> q = << >>, index |-> q, iter |-> q, back |-> Reverse(q), random |-> q,
    ends |-> IF q = << >> THEN << >> ELSE <<q[1], q[Len(q)]>>,
    segs |-> Segs(q, k), closing |-> IF q = << >> THEN << >> ELSE <<q[Len(q)], q[1]>>,
    basic |-> IF k \in {"L3", "P3"} THEN Crd3(s, q) ELSE Crd2(s, q),
    has |-> [p \in 1..Cardinality(Pts) |-> \E i \in 1..Len(q) : q[i] = p],
    dist |-> <<Len(q), -Len(q)>>,
    eqs |-> <<TRUE, TRUE, FALSE, TRUE>>,      \* itself, invert().invert(), its inverse, the vector of its points
    inverted |-> inv = 1 ]

Out(s, d, ret) == [st |-> s, out |-> [ret |-> ret, v |-> View(s, d)]]
Put(s, d, inv, q) == [s EXCEPT !.seq[d] = See(q, inv)]

Step(s, e) ==
  LET op == e.op a == e.a d == a[1] inv == a[3]
      q == See(s.seq[d], inv)  n == Len(q)
  IN CASE op = "reset" -> [st |-> S0, out |-> [ok |-> TRUE]]
     [] op = "push" -> Out(Put(s, d, inv, Append(q, a[4])), d, 0)
     [] op = "pop" -> IF n = 0 THEN Out(s, d, -1) ELSE Out(Put(s, d, inv, SubSeq(q, 1, n - 1)), d, 0)
     [] op = "ins" ->                              \* insert one point; returns its position
          LET i == a[4] % (n + 1) IN Out(Put(s, d, inv, Ins(q, i, <<a[5]>>)), d, i)
     (* inserting a range returns the element that comes first in stored direction: seen through an inverted handle this
        is the last inserted one (the repository's test invertAndInsertMultiple fixes that). Not observed for empty ranges *)
     [] op = "insr" ->
          LET i == a[4] % (n + 1) new == Tail3(a, 4) IN Out(Put(s, d, inv, Ins(q, i, new)), d, RangePos(i, inv, Len(new)))
     [] op = "insls" ->                            \* insert all points of another handle
          LET i == a[4] % (n + 1) new == See(s.seq[a[5]], a[6]) IN
          Out(Put(s, d, inv, Ins(q, i, new)), d, RangePos(i, inv, Len(new)))
     [] op = "erase" ->                            \* returns the position of the next element
          IF n = 0 THEN Out(s, d, -1)
          ELSE LET i == a[4] % n IN Out(Put(s, d, inv, Cut(q, i + 1)), d, i)
     [] op \in {"set", "setit", "setfront", "setback"} ->
          IF n = 0 THEN Out(s, d, -1)
          ELSE LET i == IF op = "setfront" THEN 0 ELSE IF op = "setback" THEN n - 1 ELSE a[4] % n
               IN Out(Put(s, d, inv, [q EXCEPT ![i + 1] = a[5]]), d, i)
     [] op = "resize" ->
          Out(Put(s, d, inv, IF a[4] <= n THEN SubSeq(q, 1, a[4]) ELSE q \o Zeros(a[4] - n)), d, 0)
     [] op = "clear" -> Out(Put(s, d, inv, << >>), d, 0)
     [] op = "assign" -> Out(Put(s, d, inv, Tail3(a, 3)), d, 0)
     [] op = "reverse" -> Out(Put(s, d, inv, Reverse(q)), d, 0)          \* std::reverse through the iterators
     [] op = "rotate" ->                                                  \* std::rotate by one
          IF n = 0 THEN Out(s, d, -1) ELSE Out(Put(s, d, inv, SubSeq(q, 2, n) \o <<q[1]>>), d, 0)
     [] op = "reserve" -> Out(s, d, 0)
     [] op = "mv" ->                               \* change a coordinate of the i-th point through the handle
          IF n = 0 THEN Out(s, d, -1)
          ELSE LET p == q[(a[4] % n) + 1] IN
               IF p = 0 THEN Out(s, d, -1) ELSE Out([s EXCEPT !.xyz[p][a[5]] = a[6]], d, p)
     [] op = "probe" -> [st |-> s, out |-> Probe(s, d, a[2], inv)]
=============================================================================
