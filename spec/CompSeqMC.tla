---------------------------- MODULE CompSeqMC ----------------------------
(* exhaustive: all contents of some line strings up to a length, under fixed compounds, lanelets and sequences using them *)
EXTENDS CompSeq, Json, TLCExt
CONSTANTS MaxLen, NLines, P
VARIABLES s, last
O(op, a) == [op |-> op, a |-> a]
Setup == <<
  O("line", <<1>>), O("line", <<2, 1>>), O("line", <<3, 1, 2>>), O("line", <<4, 3, 3, 1>>), O("line", <<5, 2>>),
  O("comp", <<1, 1, 0>>), O("comp", <<2, 1, 0, 2, 0>>), O("comp", <<3, 2, 1, 1, 0, 3, 0>>), O("comp", <<4, 1, 0, 1, 1>>),
  O("comp", <<5, 1, 0, 2, 1, 1, 0>>), O("comp", <<6>>), O("comp", <<7, 4, 0, 1, 0, 2, 0>>),
  O("compc", <<8, 2, 1, 3, 0>>), O("compc", <<9, 6, 0, 3, 1, 4, 0>>),
  O("llt", <<1, 1, 0, 4, 0>>), O("llt", <<2, 2, 1, 1, 1>>), O("llt", <<3, 3, 0, 5, 0>>),
  O("setc", <<1, 0, 2, 0>>), O("setc", <<2, 1, 1, 0>>), O("addre", <<1, 2>>), O("addre", <<2, 1>>), O("addre", <<3, 2>>),
  O("seq", <<1, 1, 0, 2, 0>>), O("seq", <<2, 2, 1, 1, 1, 3, 0>>), O("seqs", <<3, 1, 1, 2, 0>>), O("seq", <<4, 1, 0>>) >>
RECURSIVE Run(_, _)
Run(M, i) == IF i > Len(Setup) THEN M ELSE LET N1 == Step(M, Setup[i]).st IN IF DOMAIN N1.line # {} THEN Run(N1, i + 1) ELSE M
ASSUME PrintT(ToJson([setup |-> Setup]))
Ops == {O("push", <<n, v, p>>) : n \in 1..NLines, v \in {0, 1}, p \in P} \cup {O("pop", <<n, v>>) : n \in 1..NLines, v \in {0, 1}}
   \cup {O("setl", <<3, v, n, v>>) : n \in {2, 3}, v \in {0, 1}}
Init == s = Run(M0, 1) /\ last = O("reset", << >>)
Next == \E o \in Ops : s' = Step(s, o).st /\ s' # s /\ last' = o /\ (o.op = "push" => Len(s'.line[o.a[1]]) <= MaxLen)
Spec == Init /\ [][Next]_<<s, last>>
vw == s

NoTwice(q) == \A i \in 1..(Len(q) - 1) : q[i] # q[i + 1]
Both(ps) == <<View(s, ps), View(s, SeeParts(ps, 1))>>
Inv == /\ \A c \in DOMAIN s.comp : LET ps == s.comp[c] v == Both(ps) IN
            /\ NoTwice(v[1]) /\ v[2] = Reverse(v[1]) /\ SeeParts(SeeParts(ps, 1), 1) = ps
            /\ {v[1][i] : i \in 1..Len(v[1])} = UNION {{s.line[ps[i][1]][j] : j \in 1..Len(s.line[ps[i][1]])} : i \in 1..Len(ps)}
       (* a compound of compounds shows what its parts show *)
       /\ View(s, s.comp[8]) = Uniq(Reverse(View(s, s.comp[2])) \o View(s, s.comp[3]))
       /\ \A q \in DOMAIN s.sq : LET a == SProbe(s, q, 0) b == SProbe(s, q, 1) IN
            a.left = Reverse(b.right) /\ a.right = Reverse(b.left) /\ a.center = Reverse(b.center) /\ Len(a.re) = Len(b.re)
       (* a sequence of sequences is the sequence of all the lanelets *)
       /\ LET a == SProbe(s, 3, 0) x == SProbe(s, 1, 1) y == SProbe(s, 2, 0) IN
            a.left = Uniq(x.left \o y.left) /\ a.right = Uniq(x.right \o y.right)

Key(x) == ToString(<<TLCFP(x), TLCFP(<<x, "second">>)>>)
Emit == PrintT(ToJson([f |-> Key(s), t |-> Key(s'), lv |-> TLCGet("level"), op |-> last'.op, a |-> last'.a]))
=============================================================================
