---------------------------- MODULE AttributesMC ----------------------------
(* Design: an attribute is a text and a cached reading (the last successful one). Exhaustive over the texts and caches of two attributes:
   what a reading gives is what the text means. The histories it enumerates are executed on the real code. *)
EXTENDS Attributes, Json, TLCExt
CONSTANTS Texts, Names
VARIABLES at, ca, last
O(op, a) == [op |-> op, a |-> a]
Val(t, k) == LET m == Meaning(t, k) IN [k |-> k, none |-> m.kind = "none", n |-> m.n]
No == [k |-> "", none |-> TRUE, n |-> 0]
(* as the code reads: from the cache if it is of that kind *)
Read(t, c, k) == IF c.k = k THEN c ELSE Val(t, k)
After(t, c, k) == LET v == Read(t, c, k) IN
                  (* a bool written as number is not stored, a velocity without unit passes by the double *)
                  IF v.none \/ (k = "b" /\ t \in {"0", "1"}) THEN c ELSE v
Init == at = [n \in Names |-> "x"] /\ ca = [n \in Names |-> No] /\ last = O("reset", << >>)
Conv(n, k) == /\ at' = at /\ ca' = [ca EXCEPT ![n] = After(at[n], ca[n], k)] /\ last' = O("conv", <<n, k>>)
Set(n, t) == /\ at' = [at EXCEPT ![n] = t] /\ ca' = [ca EXCEPT ![n] = No] /\ last' = O("set", <<n, t>>)
Copy(n, m, op) == /\ n # m /\ at' = [at EXCEPT ![n] = at[m]] /\ ca' = [ca EXCEPT ![n] = ca[m]] /\ last' = O(op, <<n, m>>)
Swap(n, m) == /\ n # m /\ at' = [at EXCEPT ![n] = at[m], ![m] = at[n]] /\ ca' = [ca EXCEPT ![n] = ca[m], ![m] = ca[n]] /\ last' = O("swap", <<n, m>>)
Next == \E n, m \in Names : \/ \E k \in Kinds : Conv(n, k)
                            \/ \E t \in Texts : Set(n, t)
                            \/ \E op \in {"assign", "copy"} : Copy(n, m, op)
                            \/ Swap(n, m)
Spec == Init /\ [][Next]_<<at, ca, last>>
vw == <<at, ca>>
Coherent == \A n \in Names, k \in Kinds : Read(at[n], ca[n], k) = Val(at[n], k)
Key(x) == ToString(<<TLCFP(x), TLCFP(<<x, "second">>)>>)
Emit == PrintT(ToJson([f |-> Key(vw), t |-> Key(vw'), lv |-> TLCGet("level"), op |-> last'.op, a |-> last'.a]))
=============================================================================
