-------------------------- MODULE HybridMapTrace --------------------------
EXTENDS HybridMap, TraceUtil

KeyOrderT == <<"", "Type", "color", "dynamic", "ele", "location", "one_way", "participant:pedestrian",
               "participant:vehicle", "speed_limit", "subtype", "type", "type2", "zz">>
KnownT == <<"type", "subtype", "one_way", "participant:vehicle", "participant:pedestrian", "speed_limit", "location", "dynamic">>

VARIABLES l, s
Init == l = 1 /\ s = S0
Next == /\ l <= Len(Trace)
        /\ LET r == Step(s, Trace[l]) IN Match(l, r.out) /\ s' = r.st
        /\ l' = l + 1
Spec == Init /\ [][Next]_<<l, s>>
=============================================================================
