---------------------------- MODULE LineSeqMC ----------------------------
EXTENDS LineSeq, Json
CONSTANT MaxLen
VARIABLES s, last

I == {0, 1}
P == Pts
OpsOn(d) == LET n == Len(s.seq[d]) pos == 0..n o == CHOOSE x \in Slots : x # d IN
       {[op |-> "push", a |-> <<d, "k", v, p>>] : v \in I, p \in P}
  \cup {[op |-> o1, a |-> <<d, "k", v>>] : o1 \in {"pop", "clear", "reverse", "rotate", "reserve", "probe"}, v \in I}
  \cup {[op |-> "ins", a |-> <<d, "k", v, i, p>>] : v \in I, i \in pos, p \in P}
  \cup {[op |-> "insr", a |-> <<d, "k", v, i>>] : v \in I, i \in pos}
  \cup {[op |-> "insr", a |-> <<d, "k", v, i, p>>] : v \in I, i \in pos, p \in P}
  \cup {[op |-> "insr", a |-> <<d, "k", v, i, 1, 2>>] : v \in I, i \in pos}
  \cup {[op |-> "insls", a |-> <<d, "k", v, i, o, w>>] : v \in I, i \in pos, w \in I}
  \cup {[op |-> "erase", a |-> <<d, "k", v, i>>] : v \in I, i \in 0..(n - 1)}
  \cup {[op |-> o1, a |-> <<d, "k", v, i, p>>] : o1 \in {"set", "setit"}, v \in I, i \in 0..(n - 1), p \in P}
  \cup {[op |-> o1, a |-> <<d, "k", v, 0, p>>] : o1 \in {"setfront", "setback"}, v \in I, p \in P}
  \cup {[op |-> "resize", a |-> <<d, "k", v, m>>] : v \in I, m \in 0..MaxLen}
  \cup {[op |-> "assign", a |-> <<d, "k", v, 1, 2>>] : v \in I}
  \cup {[op |-> "mv", a |-> <<d, "k", v, i, 3, 7>>] : v \in I, i \in 0..(n - 1)}

Init == s = S0 /\ last = [op |-> "reset", a |-> <<1, "k", 0>>]
Next == \E d \in Slots : \E o \in OpsOn(d) :
          /\ Len(Step(s, o).st.seq[d]) <= MaxLen
          /\ s' = Step(s, o).st
          /\ last' = o
Spec == Init /\ [][Next]_<<s, last>>
vw == s.seq
TypeOK == \A d \in Slots : Len(s.seq[d]) <= MaxLen /\ \A i \in 1..Len(s.seq[d]) : s.seq[d][i] \in Pts \cup {0}
InverseTwice == \A d \in Slots, v \in I : See(See(s.seq[d], v), v) = s.seq[d]
(* the same edit through the inverted handle is the mirrored edit *)
Mirror == [][ last'.op \in {"push", "pop"} =>
   LET d == last'.a[1] q == See(s.seq[d], last'.a[3]) q2 == See(s'.seq[d], last'.a[3]) IN
     IF last'.op = "push" THEN Len(q2) = Len(q) + 1 /\ SubSeq(q2, 1, Len(q)) = q /\ q2[Len(q2)] = last'.a[4]
     ELSE q # << >> => q2 = SubSeq(q, 1, Len(q) - 1) ]_<<s, last>>
Frame == [][\A d \in Slots : s'.seq[d] # s.seq[d] => d = last'.a[1]]_<<s, last>>
Emit == PrintT(ToJson([f |-> ToString(s.seq), t |-> ToString(s'.seq), op |-> last'.op, a |-> last'.a]))
=============================================================================
