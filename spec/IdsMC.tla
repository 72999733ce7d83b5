------------------------------- MODULE IdsMC -------------------------------
(* the generator as threads of atomic steps: handing out is a fetch-and-add, registering a load and a compare-exchange loop which
   may fail spuriously. Every history it can produce is linearizable to the specification of Ids. *)
EXTENDS Ids, Json
CONSTANTS Regs, MaxSpur
VARIABLES prog, at, ctr, loc, hist, time, spur
vars == <<prog, at, ctr, loc, hist, time, spur>>
Ops == {<<"g", 0>>} \cup {<<"r", n>> : n \in Regs}
Seqs == UNION {[1..k -> Ops] : k \in 1..2}
Two == {<<a, b>> : a \in Seqs, b \in Seqs}
Three == {<<<<a>>, <<b>>, <<c>>>> : a \in Ops, b \in Ops, c \in Ops}
Programs == {p \in Two \cup Three : \E t \in DOMAIN p : \E i \in DOMAIN p[t] : p[t][i][1] = "g"}
ASSUME \A p \in Programs : PrintT(ToJson([program |-> p]))
None == -1
Idle(t) == loc[t].pc = "idle"
Init == /\ prog \in Programs /\ at = [t \in DOMAIN prog |-> 1] /\ ctr = 1 /\ time = 0 /\ spur = 0
        /\ loc = [t \in DOMAIN prog |-> [pc |-> "idle", cur |-> None, start |-> None]] /\ hist = << >>
Begin(t) == /\ Idle(t) /\ at[t] <= Len(prog[t])
            /\ loc' = [loc EXCEPT ![t] = [pc |-> IF prog[t][at[t]][1] = "g" THEN "add" ELSE "load", cur |-> None, start |-> time]]
            /\ time' = time + 1 /\ UNCHANGED <<prog, at, ctr, hist, spur>>
End(t, v) == /\ hist' = Append(hist, <<prog[t][at[t]][1], v, loc[t].start, time>>) /\ time' = time + 1
             /\ at' = [at EXCEPT ![t] = @ + 1] /\ loc' = [loc EXCEPT ![t].pc = "idle"] /\ UNCHANGED <<prog, ctr, spur>>
FetchAdd(t) == /\ loc[t].pc = "add" /\ ctr' = ctr + 1 /\ loc' = [loc EXCEPT ![t].pc = "got", ![t].cur = ctr] /\ UNCHANGED <<prog, at, hist, time, spur>>
Got(t) == loc[t].pc = "got" /\ End(t, loc[t].cur)
Load(t) == /\ loc[t].pc = "load" /\ loc' = [loc EXCEPT ![t].pc = "cas", ![t].cur = ctr] /\ UNCHANGED <<prog, at, ctr, hist, time, spur>>
Cas(t) == /\ loc[t].pc = "cas"
          /\ LET n == prog[t][at[t]][2] + 1 c == loc[t].cur IN
             IF c >= n THEN End(t, n - 1)
             ELSE \/ /\ ctr = c /\ ctr' = n /\ loc' = [loc EXCEPT ![t].cur = n] /\ UNCHANGED <<prog, at, hist, time, spur>>
                  \/ /\ ctr # c /\ loc' = [loc EXCEPT ![t].cur = ctr] /\ UNCHANGED <<prog, at, ctr, hist, time, spur>>
                  \/ /\ spur < MaxSpur /\ spur' = spur + 1 /\ loc' = [loc EXCEPT ![t].cur = ctr] /\ UNCHANGED <<prog, at, ctr, hist, time>>
Next == \E t \in DOMAIN prog : Begin(t) \/ FetchAdd(t) \/ Got(t) \/ Load(t) \/ Cas(t)
Spec == Init /\ [][Next]_vars
Forward == [][ctr' >= ctr]_vars
Done == \A t \in DOMAIN prog : Idle(t) /\ at[t] > Len(prog[t])
Inv == Done => HistOk(Append(hist, <<"g", ctr, time, time + 1>>))
=============================================================================
