-------------------------- MODULE AttributesTrace --------------------------
EXTENDS Attributes, TraceUtil
VARIABLES l, s
Init == l = 1 /\ s = M0
Next == /\ l <= Len(Trace)
        /\ LET r == Step(s, Trace[l]) IN (IF Trace[l].op \in Relational THEN Verdict(l, r.ok, r.out) ELSE Match(l, r.out)) /\ s' = r.st
        /\ l' = l + 1
Spec == Init /\ [][Next]_<<l, s>>
=============================================================================
