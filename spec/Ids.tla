-------------------------------- MODULE Ids --------------------------------
(* C05 - ids handed out by the library. handed: the last id handed out, used: ids registered since the last reset; ids are
   relative to the state of the generator at the last reset. *)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt, FiniteSetsExt, TLC

M0 == [handed |-> 0, used |-> {}]
Ok(M, out) == [st |-> M, ok |-> TRUE, out |-> out]
SetOf(q) == {q[i] : i \in 1..Len(q)}

(* ids handed out one after the other *)
Fresh(M, q) == /\ \A i \in 1..Len(q) : q[i] \notin M.used /\ q[i] > (IF i = 1 THEN M.handed ELSE q[i - 1])
(* new ids in any order *)
FreshSet(M, S) == S \cap M.used = {} /\ \A x \in S : x > M.handed

(* a concurrent history: operations <<kind, value, start, end>>; is there an order of the operations that respects their times and
   in which every id handed out is new and larger than the one before? *)
RECURSIVE Lin(_, _, _, _)
Lin(h, rem, last, used) ==
  rem = {} \/ \E i \in rem : /\ \A j \in rem : h[j][4] >= h[i][3]
                             /\ IF h[i][1] = "g" THEN h[i][2] > last /\ h[i][2] \notin used /\ Lin(h, rem \ {i}, h[i][2], used)
                                ELSE Lin(h, rem \ {i}, last, used \cup {h[i][2]})
HistOk(h) == /\ \A i, j \in 1..Len(h) : h[i][1] = "g" /\ h[j][1] = "g" /\ i # j => h[i][2] # h[j][2]
             /\ Lin(h, 1..Len(h), 0, {})

Step(M, e) == LET op == e.op a == e.a IN
  CASE op = "reset" -> Ok(M0, [ok |-> TRUE])
    [] op = "get" -> LET q == e.o.ids IN
         [st |-> [M EXCEPT !.handed = IF q = << >> THEN @ ELSE q[Len(q)]], ok |-> "ids" \in DOMAIN e.o /\ Len(q) = a[1] /\ Fresh(M, q), out |-> M]
    [] op = "reg" -> Ok([M EXCEPT !.used = @ \cup SetOf(a)], [ok |-> TRUE])
    [] op = "add" ->      \* where, kind, ids of the element and all its parts
         LET all == SubSeq(a, 3, Len(a))
             mine == IF a[1] \in {"map", "create"} THEN all ELSE <<all[1]>>
         IN [st |-> [M EXCEPT !.used = @ \cup SetOf(mine)], ok |-> "ids" \in DOMAIN e.o /\ SetOf(e.o.ids) = SetOf(all) /\ Len(e.o.ids) = Len(all), out |-> M]
    [] op = "new" ->      \* an element without ids (and parts without ids) is given some
         IF "ids" \notin DOMAIN e.o THEN [st |-> M, ok |-> FALSE, out |-> M]
         ELSE LET q == e.o.ids IN
           [st |-> [M EXCEPT !.handed = Max(SetOf(q))], ok |-> Len(q) = a[3] /\ FreshSet(M, SetOf(q)) /\ Cardinality(SetOf(q)) = Len(q), out |-> M]
    [] op = "load" -> LET all == SubSeq(a, 3, Len(a)) IN
         [st |-> [M EXCEPT !.used = @ \cup SetOf(all)], ok |-> "ids" \in DOMAIN e.o /\ SetOf(e.o.ids) = SetOf(all), out |-> M]
    [] op = "explore" ->  \* what could be observed under some schedule
         [st |-> M, ok |-> "hist" \in DOMAIN e.o /\ \A i \in 1..Len(e.o.hist) : HistOk(e.o.hist[i]),
          out |-> IF "hist" \in DOMAIN e.o THEN SelectSeq(e.o.hist, LAMBDA h : ~HistOk(h)) ELSE << >>]
    [] op = "stress" -> [st |-> M, ok |-> e.o = [unique |-> TRUE, ascending |-> TRUE, after |-> TRUE], out |-> [unique |-> TRUE]]
Relational == {"get", "add", "new", "load", "explore", "stress"}
=============================================================================
