------------------------------- MODULE Rules -------------------------------
(* C18, C19 - what tags, markings and regulatory elements of a map allow a road user to do (the tagging specification).
   A map is a record:
     line[n]  = sequence of point names, in stored direction
     llt[n]   = [l |-> <<line, inv>>, r |-> <<line, inv>>]        area[n] = sequence of <<line, inv>> (clockwise ring)
     tags[o]  = function tag -> value of any object               re[o]   = sequence of regulatory elements of o
     sign[r]  = sign of a speed limit element ("" for a generic element) *)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt, TLC

None == [x \in {} |-> ""]
M0 == [line |-> [x \in {} |-> << >>], llt |-> [x \in {} |-> [l |-> <<"", 0>>, r |-> <<"", 0>>]], area |-> [x \in {} |-> << >>],
       tags |-> [x \in {} |-> None], re |-> [x \in {} |-> << >>], sign |-> None, lln |-> << >>, arn |-> << >>]

Has(M, o, k) == k \in DOMAIN M.tags[o]
Val(M, o, k) == IF k \in DOMAIN M.tags[o] THEN M.tags[o][k] ELSE ""
Yes(v) == v \in {"yes", "true", "1"}
Without(f, k) == [x \in DOMAIN f \ {k} |-> f[x]]
SetTag(M, o, k, v) == [M EXCEPT !.tags[o] = IF v = "" THEN Without(@, k) ELSE (k :> v) @@ @]

(* ---- participants: a hierarchy; a tag names one level of it *)
Levels(p) == CASE p = "vehicle" -> {"vehicle"}
  [] p = "vehicle:car" -> {"vehicle", "vehicle:car"}
  [] p = "vehicle:car:electric" -> {"vehicle", "vehicle:car", "vehicle:car:electric"}
  [] p = "vehicle:car:combustion" -> {"vehicle", "vehicle:car", "vehicle:car:combustion"}
  [] p \in {"vehicle:bus", "vehicle:truck", "vehicle:taxi", "vehicle:motorcycle", "vehicle:emergency"} -> {"vehicle", p}
  [] OTHER -> {p}
AllLevels == {"vehicle", "vehicle:car", "vehicle:car:electric", "vehicle:car:combustion", "vehicle:bus", "vehicle:truck",
              "vehicle:taxi", "vehicle:motorcycle", "vehicle:emergency", "pedestrian", "bicycle", "train"}
IsVehicle(p) == "vehicle" \in Levels(p)
Overridden(M, o, what) == {v \in AllLevels : Has(M, o, what \o ":" \o v)}     \* levels tagged with  what:level
Matching(M, o, what, p) == Overridden(M, o, what) \cap Levels(p)             \* at most one in legal maps

(* ---- may p use the object: regulatory elements, then overrides, then the type *)
ByType(type) == CASE type = "" -> {"vehicle"} [] type = "road" -> {"vehicle", "bicycle"} [] type = "highway" -> {"vehicle"}
  [] type = "bicycle_lane" -> {"bicycle"} [] type = "play_street" -> {"vehicle", "bicycle", "pedestrian"}
  [] type = "emergency_lane" -> {"vehicle:emergency"} [] type = "exit" -> {"vehicle", "bicycle", "pedestrian"}
  [] type = "bus_lane" -> {"vehicle:bus", "vehicle:emergency", "vehicle:taxi"}
  [] type \in {"walkway", "crosswalk", "stairs"} -> {"pedestrian"} [] type = "shared_walkway" -> {"pedestrian", "bicycle"}
  [] OTHER -> {}
Res(M, o, k) == SelectSeq(M.re[o], LAMBDA r : M.sign[r] = "" /\ Has(M, r, k))   \* generic elements with attribute k
(* the German rules have no regulatory elements that decide on passing; the custom ones use "allow" *)
Usable(M, o, kind, p) ==
  IF kind = "cu" /\ Res(M, o, "allow") # << >> THEN Yes(Val(M, Res(M, o, "allow")[1], "allow"))
  ELSE IF Overridden(M, o, "participant") # {} THEN \E v \in Matching(M, o, "participant", p) : Yes(Val(M, o, "participant:" \o v))
  ELSE ByType(Val(M, o, "subtype")) \cap Levels(p) # {}
(* ---- may p go against the direction *)
Against(M, o, p) ==
  IF Has(M, o, "one_way") THEN ~Yes(Val(M, o, "one_way"))
  ELSE IF Overridden(M, o, "one_way") # {} THEN \E v \in Matching(M, o, "one_way", p) : ~Yes(Val(M, o, "one_way:" \o v))
  ELSE p = "pedestrian"
Dir(M, h, p) == h[2] = 0 \/ Against(M, h[1], p)
PassL(M, h, kind, p) == Dir(M, h, p) /\ Usable(M, h[1], kind, p)
(* German vehicles never use areas *)
PassA(M, x, kind, p) == Usable(M, x, kind, p) /\ ~(kind = "de" /\ IsVehicle(p))
OneWay(M, h, p) == ~Against(M, h[1], p)
Dynamic(M, o) == \E i \in 1..Len(M.re[o]) : M.sign[M.re[o][i]] = "" /\ Yes(Val(M, M.re[o][i], "dynamic"))

(* ---- topology *)
Flip(b) == <<b[1], 1 - b[2]>>
Seen(M, b) == IF b[2] = 0 THEN M.line[b[1]] ELSE Reverse(M.line[b[1]])
First(M, b) == Seen(M, b)[1]
Final(M, b) == LET q == Seen(M, b) IN q[Len(q)]
LeftB(M, h) == IF h[2] = 0 THEN M.llt[h[1]].l ELSE Flip(M.llt[h[1]].r)
RightB(M, h) == IF h[2] = 0 THEN M.llt[h[1]].r ELSE Flip(M.llt[h[1]].l)
Inv(h) == <<h[1], 1 - h[2]>>
Follows(M, a, b) == /\ Final(M, LeftB(M, a)) = First(M, LeftB(M, b))
                    /\ Final(M, RightB(M, a)) = First(M, RightB(M, b))
LeftOf(M, a, b) == RightB(M, a) = LeftB(M, b)         \* a lies left of b
Ring(M, x) == {M.area[x][i] : i \in 1..Len(M.area[x])}

(* ---- crossing a boundary seen in direction b towards side "L" or "R" *)
Mirror(set) == (IF "L" \in set THEN {"R"} ELSE {}) \cup (IF "R" \in set THEN {"L"} ELSE {})
VehicleMark(t, s) == IF t \in {"line_thin", "line_thick"}
  THEN CASE s = "dashed" -> {"L", "R"} [] s = "dashed_solid" -> {"R"} [] s = "solid_dashed" -> {"L"} [] OTHER -> {}
  ELSE {}
WalkMark(t, s) == IF t = "curbstone" /\ s = "low" THEN {"L", "R"} ELSE {}
Stored(M, n, p, virt) ==
  IF Has(M, n, "lane_change") THEN (IF Yes(Val(M, n, "lane_change")) THEN {"L", "R"} ELSE {})
  ELSE IF Has(M, n, "lane_change:left") /\ Has(M, n, "lane_change:right")
    THEN (IF Yes(Val(M, n, "lane_change:left")) THEN {"L"} ELSE {}) \cup (IF Yes(Val(M, n, "lane_change:right")) THEN {"R"} ELSE {})
  ELSE LET t == Val(M, n, "type") s == Val(M, n, "subtype") IN
    IF virt /\ t = "virtual" THEN {"L", "R"}
    ELSE (IF IsVehicle(p) \/ p = "bicycle" THEN VehicleMark(t, s) ELSE {})
         \cup (IF p \in {"pedestrian", "bicycle"} THEN WalkMark(t, s) ELSE {})
Crossable(M, b, p, virt) == IF b[2] = 0 THEN Stored(M, b[1], p, virt) ELSE Mirror(Stored(M, b[1], p, virt))

(* ---- from one element to another. Sets of verdicts of all boundaries that connect them *)
PassLL(M, a, b, kind, p) == Follows(M, a, b) /\ PassL(M, a, kind, p) /\ PassL(M, b, kind, p)
ChangeLL(M, a, b, kind, p) == PassL(M, a, kind, p) /\ PassL(M, b, kind, p) /\
   ( (LeftOf(M, a, b) /\ "R" \in Crossable(M, RightB(M, a), p, FALSE))
  \/ (LeftOf(M, b, a) /\ "L" \in Crossable(M, LeftB(M, a), p, FALSE)) )
May(M, b, side, p) == side \in Crossable(M, b, p, TRUE)
(* lanelet h to area x: over its left or right bound, or over the end *)
LAverdicts(M, h, x, p) ==
   {May(M, LeftB(M, h), "L", p) : b \in {b \in Ring(M, x) : Flip(b) = LeftB(M, h)}}
 \cup {May(M, RightB(M, h), "R", p) : b \in {b \in Ring(M, x) : b = RightB(M, h)}}
 \cup {May(M, b, "R", p) : b \in {b \in Ring(M, x) : Final(M, b) = Final(M, LeftB(M, h)) /\ First(M, b) = Final(M, RightB(M, h))}}
ALverdicts(M, x, h, p) ==
   {May(M, LeftB(M, h), "R", p) : b \in {b \in Ring(M, x) : Flip(b) = LeftB(M, h)}}
 \cup {May(M, RightB(M, h), "L", p) : b \in {b \in Ring(M, x) : b = RightB(M, h)}}
 \cup {May(M, b, "L", p) : b \in {b \in Ring(M, x) : First(M, b) = First(M, LeftB(M, h)) /\ Final(M, b) = First(M, RightB(M, h))}}
AAverdicts(M, x, y, p) == {May(M, b, "L", p) : b \in {b \in Ring(M, x) : Flip(b) \in Ring(M, y)}}

(* ---- speed: thousandths of km/h, and whether mandatory; Unknown where nothing is said *)
Velocity(t) == CASE t \in {"50", "50km/h", "50#km/h", "50kmh", "50#kmh", "50.0"} -> 50000 [] t \in {"20", "20#km/h"} -> 20000
  [] t \in {"15", "15#kmh"} -> 15000 [] t \in {"80", "80#km/h", "80km/h"} -> 80000 [] t \in {"10#m/s", "10m/s", "10mps", "10#mps"} -> 36000
  [] t \in {"30#mph", "30mph"} -> 48280 [] t \in {"12.5", "12.5#km/h"} -> 12500 [] t = "7" -> 7000 [] OTHER -> -1
Sign(t) == CASE t = "de274" -> 30000 [] t = "de274-5" -> 5000 [] t = "de274-10" -> 10000 [] t = "de274-15" -> 15000
  [] t = "de274-20" -> 20000 [] t = "de274-30" -> 30000 [] t = "de274-40" -> 40000 [] t = "de274-50" -> 50000
  [] t = "de274-60" -> 60000 [] t = "de274-70" -> 70000 [] t = "de274-80" -> 80000 [] t = "de274-90" -> 90000
  [] t = "de274-100" -> 100000 [] t = "de274-110" -> 110000 [] t = "de274-120" -> 120000 [] t = "de274-130" -> 130000
  [] t = "de274_1" -> 30000 [] t = "de274_1-20" -> 20000 [] t = "de310" -> 50000 [] OTHER -> Velocity(t)
(* urban road, nonurban road, urban highway, nonurban highway, play street, pedestrian, bicycle *)
Country(kind) == IF kind = "de"
  THEN <<<<50000, TRUE>>, <<100000, TRUE>>, <<130000, FALSE>>, <<130000, FALSE>>, <<7000, TRUE>>, <<5000, TRUE>>, <<20000, TRUE>>>>
  ELSE <<<<51000, FALSE>>, <<52000, TRUE>>, <<53000, TRUE>>, <<54000, FALSE>>, <<55000, TRUE>>, <<56000, FALSE>>, <<57000, TRUE>>>>
Unknown == <<-3, FALSE>>
Default(M, o, kind, p) ==
  LET loc == IF Has(M, o, "location") THEN Val(M, o, "location") ELSE "urban"
      type == IF Has(M, o, "subtype") THEN Val(M, o, "subtype") ELSE "road"
      c == Country(kind) IN
  CASE p = "pedestrian" -> c[6]
    [] p = "bicycle" -> c[7]
    [] ~IsVehicle(p) -> Unknown
    [] loc \in {"urban", "nonurban"} /\ type = "play_street" -> c[5]
    [] loc = "urban" /\ type \in {"road", "exit", "bus_lane"} -> c[1]
    [] loc = "nonurban" /\ type \in {"road", "bus_lane"} -> c[2]
    [] loc = "urban" /\ type = "highway" -> c[3]
    [] loc = "nonurban" /\ type = "highway" -> c[4]
    [] OTHER -> Unknown
SpeedTagged(M, o) == Has(M, o, "speed_limit") \/ Overridden(M, o, "speed_limit") # {}
MandTagged(M, o) == Has(M, o, "speed_limit_mandatory") \/ Overridden(M, o, "speed_limit_mandatory") # {}
Tagged(M, o, p) ==
  LET m == Matching(M, o, "speed_limit", p)
      n == Matching(M, o, "speed_limit_mandatory", p)
      speed == IF m # {} THEN Velocity(Val(M, o, "speed_limit:" \o (CHOOSE v \in m : TRUE)))
               ELSE IF Has(M, o, "speed_limit") THEN Velocity(Val(M, o, "speed_limit")) ELSE 0
      mand == IF n # {} THEN Yes(Val(M, o, "speed_limit_mandatory:" \o (CHOOSE v \in n : TRUE)))
              ELSE IF Has(M, o, "speed_limit_mandatory") THEN Yes(Val(M, o, "speed_limit_mandatory")) ELSE TRUE
  IN <<speed, mand>>
Signs(M, o) == SelectSeq(M.re[o], LAMBDA r : M.sign[r] # "")
(* set of acceptable answers: any of the speed limit elements, if there are several *)
Limits(M, o, kind, p) ==
  LET se == Signs(M, o) ce == Res(M, o, "limit") IN
  IF kind = "de" /\ IsVehicle(p) /\ se # << >>
    THEN {IF Sign(M.sign[se[i]]) = -1 THEN <<-2, TRUE>> ELSE <<Sign(M.sign[se[i]]), TRUE>> : i \in 1..Len(se)}
  ELSE IF kind = "cu" /\ ce # << >>
    THEN {<<Velocity(Val(M, ce[i], "limit")), IF Has(M, ce[i], "must") THEN Yes(Val(M, ce[i], "must")) ELSE TRUE>> : i \in 1..Len(ce)}
  ELSE IF SpeedTagged(M, o) THEN {Tagged(M, o, p)}
  ELSE IF MandTagged(M, o) THEN {Unknown}
  ELSE {Default(M, o, kind, p)}

(* ---- the observations *)
HandlesOf(M) == FlattenSeq([i \in 1..Len(M.lln) |-> <<<<M.lln[i], 0>>, <<M.lln[i], 1>>>>])
Tok(h) == IF h[2] = 0 THEN h[1] ELSE h[1] \o "~"
Cross(A, B) == FlattenSeq([i \in 1..Len(A) |-> [j \in 1..Len(B) |-> <<A[i], B[j]>>]])
Names(q, T(_)) == [i \in 1..Len(q) |-> T(q[i])]
HH(x) == Tok(x[1]) \o ">" \o Tok(x[2])
HA(x) == Tok(x[1]) \o ">" \o x[2]
AH(x) == x[2] \o ">" \o Tok(x[1])
AA(x) == x[1] \o ">" \o x[2]
(* verdict of a pair: determined when all connecting boundaries agree, otherwise what was observed is accepted *)
In(name, seen) == \E i \in 1..Len(seen) : seen[i] = name
Agreed(vs, name, seen) == IF vs = {TRUE} THEN TRUE ELSE IF vs = {} \/ vs = {FALSE} THEN FALSE ELSE In(name, seen)
Query(M, kind, p, o) ==
  LET hs == HandlesOf(M)
      ar == M.arn
  IN [pass |-> Names(SelectSeq(hs, LAMBDA h : PassL(M, h, kind, p)), Tok) \o SelectSeq(ar, LAMBDA x : PassA(M, x, kind, p)),
      oneway |-> Names(SelectSeq(hs, LAMBDA h : OneWay(M, h, p)), Tok),
      dyn |-> Names(SelectSeq(hs, LAMBDA h : Dynamic(M, h[1])), Tok),
      ll |-> Names(SelectSeq(Cross(hs, hs), LAMBDA x : PassLL(M, x[1], x[2], kind, p)), HH),
      ch |-> Names(SelectSeq(Cross(hs, hs), LAMBDA x : ChangeLL(M, x[1], x[2], kind, p)), HH),
      la |-> Names(SelectSeq(Cross(hs, ar), LAMBDA x : PassL(M, x[1], kind, p) /\ PassA(M, x[2], kind, p)
                     /\ Agreed(LAverdicts(M, x[1], x[2], p), HA(x), o.la)), HA),
      al |-> Names(SelectSeq(Cross(hs, ar), LAMBDA x : PassL(M, x[1], kind, p) /\ PassA(M, x[2], kind, p)
                     /\ Agreed(ALverdicts(M, x[2], x[1], p), AH(x), o.al)), AH),
      aa |-> Names(SelectSeq(Cross(ar, ar), LAMBDA x : PassA(M, x[1], kind, p) /\ PassA(M, x[2], kind, p)
                     /\ Agreed(AAverdicts(M, x[1], x[2], p), AA(x), o.aa)), AA)]
Objs(M) == FlattenSeq([i \in 1..Len(M.lln) |-> <<M.lln[i], M.lln[i]>>]) \o M.arn
LimitQuery(M, kind, p, o) == [lim |-> [i \in 1..Len(Objs(M)) |->
   LET S == Limits(M, Objs(M)[i], kind, p) IN
     IF S = {Unknown} \/ (i <= Len(o.lim) /\ o.lim[i] \in S) THEN o.lim[i] ELSE CHOOSE x \in S : TRUE]]

Registered == {"vehicle", "pedestrian", "bicycle"}
OkRet == [ret |-> "ok"]
Step(M, o) ==
  LET a == o.a IN
  CASE o.op = "reset" -> [st |-> M0, out |-> OkRet]
    [] o.op = "line" -> [st |-> [M EXCEPT !.line = (a[1] :> Tail(a)) @@ @, !.tags = (a[1] :> None) @@ @], out |-> OkRet]
    [] o.op = "llt" -> [st |-> [M EXCEPT !.llt = (a[1] :> [l |-> <<a[2], a[3]>>, r |-> <<a[4], a[5]>>]) @@ @, !.tags = (a[1] :> None) @@ @,
                                         !.re = (a[1] :> << >>) @@ @, !.lln = Append(@, a[1])], out |-> OkRet]
    [] o.op = "area" -> [st |-> [M EXCEPT !.area = (a[1] :> [i \in 1..(Len(a) \div 2) |-> <<a[2 * i], a[2 * i + 1]>>]) @@ @,
                                 !.tags = (a[1] :> None) @@ @, !.re = (a[1] :> << >>) @@ @, !.arn = Append(@, a[1])], out |-> OkRet]
    [] o.op = "re" -> [st |-> [M EXCEPT !.tags = (a[1] :> None) @@ @, !.sign = (a[1] :> a[2]) @@ @], out |-> OkRet]
    [] o.op = "addre" -> [st |-> [M EXCEPT !.re[a[1]] = Append(@, a[2])], out |-> OkRet]
    [] o.op = "remre" -> LET q == M.re[a[1]] IN
         IF \E i \in 1..Len(q) : q[i] = a[2]
         THEN LET i == CHOOSE i \in 1..Len(q) : q[i] = a[2] /\ \A j \in 1..(i - 1) : q[j] # a[2]
              IN [st |-> [M EXCEPT !.re[a[1]] = SubSeq(q, 1, i - 1) \o SubSeq(q, i + 1, Len(q))], out |-> OkRet]
         ELSE [st |-> M, out |-> [ret |-> "no"]]
    [] o.op = "tag" -> LET all == IF a[1] = "*l" THEN DOMAIN M.line ELSE IF a[1] = "*" THEN DOMAIN M.llt \cup DOMAIN M.area ELSE {a[1]} IN
         [st |-> [M EXCEPT !.tags = [x \in DOMAIN @ |-> IF x \notin all THEN @[x] ELSE IF a[3] = "" THEN Without(@[x], a[2]) ELSE (a[2] :> a[3]) @@ @[x]]],
          out |-> OkRet]
    [] o.op = "fac" -> [st |-> M, out |-> IF a[1] = "de" /\ Levels(a[2]) \cap Registered # {}
                                          THEN [ret |-> "ok", loc |-> a[1], part |-> a[2]] ELSE [ret |-> "invalid", loc |-> "", part |-> ""]]
    [] o.op = "q" -> [st |-> M, out |-> Query(M, a[1], a[2], o.o)]
    [] o.op = "lim" -> [st |-> M, out |-> LimitQuery(M, a[1], a[2], o.o)]
=============================================================================
