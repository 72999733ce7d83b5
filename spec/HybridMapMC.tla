--------------------------- MODULE HybridMapMC ---------------------------
(* exhaustive exploration; prints every transition for the coverage scripts *)
EXTENDS HybridMap, Json

KeyOrderMC == <<"subtype", "type", "zz">>
KnownMC == <<"type", "subtype">>

VARIABLES s, last

Init == s = S0 /\ last = [op |-> "reset", a |-> << >>]
Next == \E o \in Ops : /\ s' = Step(s, o).st
                       /\ last' = o
Spec == Init /\ [][Next]_<<s, last>>
vw == s

TypeOK == \A x \in Slots : DOMAIN s[x] \subseteq Keys /\ \A k \in DOMAIN s[x] : s[x][k] \in Values \cup {""}

(* the reported view determines the map, and both ways of looking up agree in it *)
ViewFaithful ==
  \A x \in Slots : LET v == View(s[x]) IN
     /\ v.size = Len(v.items)
     /\ \A i \in 1..Len(Known) : (v.byname[i] = << >>) = ~\E j \in 1..Len(v.items) : v.items[j][1] = Known[i]
     /\ \A i \in 1..Len(Known), j \in 1..Len(v.items) : v.items[j][1] = Known[i] => v.byname[i] = v.items[j]

(* only the maps named in an operation change *)
Frame == [][\A x \in Slots : s'[x] # s[x] => x \in {last'.a[i] : i \in 1..Len(last'.a)}]_<<s, last>>
(* an operation that only looks never changes anything *)
ReadOnly == [][last'.op \in {"find", "findEnum", "at", "atEnum", "eq", "selfCopy"} => s' = s]_<<s, last>>

Emit == PrintT(ToJson([f |-> ToString(s), t |-> ToString(s'), op |-> last'.op, a |-> last'.a]))
=============================================================================
