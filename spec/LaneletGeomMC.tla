--------------------------- MODULE LaneletGeomMC ---------------------------
(* Design: the centerline of one lanelet is cached - `cc` holds for which contents of the bounds it was computed. Through a handle in each
   direction bounds and centerline are set, lines are edited, the cache is reset and filled by reading. As long as nothing was edited in
   place, what is cached belongs to the current bounds. All transitions are executed on the real code. *)
EXTENDS LaneletGeom, Json, TLCExt
CONSTANTS MinLen, MaxLen
VARIABLES s, cc, last
O(op, a) == [op |-> op, a |-> a]
Setup == << O("pt", <<1, 0, 4, 1>>), O("pt", <<2, 3, 5, 2>>), O("pt", <<3, 6, 4, 0>>), O("pt", <<4, 0, 0, 3>>), O("pt", <<5, 4, -1, 0>>),
            O("pt", <<6, 6, 0, 1>>), O("pt", <<7, 8, 2, 0>>),
            O("line", <<1, 1, 2>>), O("line", <<2, 4, 5, 6>>), O("line", <<3, 3, 1>>),
            O("llt", <<1, 1, 0, 2, 0>>), O("handle", <<"inv", 2, 1>>), O("handle", <<"const", 3, 1>>), O("handle", <<"weak", 4, 2>>) >>
RECURSIVE Run(_, _)
Run(M, i) == IF i > Len(Setup) THEN M ELSE LET N1 == Step(M, Setup[i] @@ [o |-> [x |-> 0]]).st IN IF DOMAIN N1.pt # {} THEN Run(N1, i + 1) ELSE M
ASSUME PrintT(ToJson([setup |-> Setup]))
St(M, x) == Step(M, x @@ [o |-> [x |-> 0]]).st
H == {1, 2}
Ops == {O("setl", <<h, n, v>>) : h \in H, n \in {1, 3}, v \in {0, 1}} \cup {O("setr", <<h, n, v>>) : h \in H, n \in {2, 3}, v \in {0, 1}}
   \cup {O("setc", <<h, 3, v>>) : h \in H, v \in {0, 1}} \cup {O("push", <<1, v, 7>>) : v \in {0}} \cup {O("pop", <<1, v>>) : v \in {0}}
   \cup {O("fresh", <<h>>) : h \in {2, 3}}
Data1 == s.ll[1]
Now(M) == <<Pts(M, M.ll[1].l), Pts(M, M.ll[1].r)>>
Init == s = Run(M0, 1) /\ cc = << >> /\ last = O("reset", << >>)
Change(x) == /\ s' = St(s, x)
             /\ (x.op = "push" => Len(s'.line[1]) <= MaxLen) /\ (x.op = "pop" => Len(s.line[1]) > MinLen)
             /\ last' = x
             /\ cc' = IF s'.ll[1].c # << >> THEN <<"custom">>
                      ELSE IF x.op = "fresh" \/ s'.ll[1].l # Data1.l \/ s'.ll[1].r # Data1.r THEN << >> ELSE cc
Read(h) == /\ s' = s /\ last' = O("probe", <<h>>)
           /\ cc' = IF cc = << >> THEN Now(s) ELSE cc
Next == (\E x \in Ops : Change(x)) \/ (\E h \in 1..4 : Read(h))
Spec == Init /\ [][Next]_<<s, cc, last>>
vw == <<s, cc>>
Coherent == (cc # << >> /\ s.ll[1].c = << >> /\ ~s.ll[1].dirty) => cc = Now(s)
Turned == /\ Shown(s, s.h[1]).lp = Reverse(Shown(s, s.h[2]).rp) /\ Shown(s, s.h[1]).rp = Reverse(Shown(s, s.h[2]).lp)
          /\ Shown(s, s.h[4]) = Shown(s, s.h[2]) /\ Shown(s, s.h[3]) = Shown(s, s.h[1])
Key(x) == ToString(<<TLCFP(x), TLCFP(<<x, "second">>)>>)
Emit == PrintT(ToJson([f |-> Key(vw), t |-> Key(vw'), lv |-> TLCGet("level"), op |-> last'.op, a |-> last'.a]))
=============================================================================
