----------------------------- MODULE Validation -----------------------------
(* C21: what the validation of a map reports.
   State: the map as far as rules look at it: coordinates in hundredths, points of lines, bounds of lanelets, attributes. *)
EXTENDS Integers, Sequences, FiniteSets, TLC, IOUtils

Less(f, K) == [x \in (DOMAIN f) \ K |-> f[x]]
With(f, k, v) == (k :> v) @@ f
Range(q) == {q[i] : i \in DOMAIN q}
E == [x \in {} |-> 0]
S0 == [pt |-> E, ls |-> E, pg |-> E, ll |-> E, at |-> E]
Str(n) == ToString(n)

(* ---------------------------------------------------------------- filter expressions *)
Lower == [c \in {"A","B","C","D","E","F","G","H","I","J","K","L","M","N","O","P","Q","R","S","T","U","V","W","X","Y","Z"} |->
  CASE c = "A" -> "a" [] c = "B" -> "b" [] c = "C" -> "c" [] c = "D" -> "d" [] c = "E" -> "e" [] c = "F" -> "f" [] c = "G" -> "g" [] c = "H" -> "h"
    [] c = "I" -> "i" [] c = "J" -> "j" [] c = "K" -> "k" [] c = "L" -> "l" [] c = "M" -> "m" [] c = "N" -> "n" [] c = "O" -> "o" [] c = "P" -> "p"
    [] c = "Q" -> "q" [] c = "R" -> "r" [] c = "S" -> "s" [] c = "T" -> "t" [] c = "U" -> "u" [] c = "V" -> "v" [] c = "W" -> "w" [] c = "X" -> "x"
    [] c = "Y" -> "y" [] OTHER -> "z"]
Low(c) == IF c \in DOMAIN Lower THEN Lower[c] ELSE c
Ch(s, i) == SubSeq(s, i, i)
RECURSIVE Closing(_, _)
Closing(s, i) == IF Ch(s, i) = "]" THEN i ELSE Closing(s, i + 1)
(* a basic regular expression: characters, ., \c, [abc], [^abc], each of them possibly followed by a star *)
AtomEnd(re, i) == IF Ch(re, i) = "\\" THEN i + 1 ELSE IF Ch(re, i) = "[" THEN Closing(re, i + 1) ELSE i
AtomOk(re, i, c) ==
  IF Ch(re, i) = "." THEN TRUE
  ELSE IF Ch(re, i) = "\\" THEN Low(Ch(re, i + 1)) = Low(c)
  ELSE IF Ch(re, i) = "[" THEN
    LET neg == Ch(re, i + 1) = "^"
        from == IF neg THEN i + 2 ELSE i + 1
        in == \E j \in from..(AtomEnd(re, i) - 1) : Low(Ch(re, j)) = Low(c)
    IN IF neg THEN ~in ELSE in
  ELSE Low(Ch(re, i)) = Low(c)
RECURSIVE Fits(_, _, _, _)
Fits(re, i, s, j) ==
  IF i > Len(re) THEN j > Len(s)
  ELSE LET e == AtomEnd(re, i) IN
       IF e < Len(re) /\ Ch(re, IF e < Len(re) THEN e + 1 ELSE e) = "*"
       THEN Fits(re, e + 2, s, j) \/ (IF j <= Len(s) THEN IF AtomOk(re, i, Ch(s, j)) THEN Fits(re, i, s, j + 1) ELSE FALSE ELSE FALSE)
       ELSE IF j <= Len(s) THEN IF AtomOk(re, i, Ch(s, j)) THEN Fits(re, e + 1, s, j + 1) ELSE FALSE ELSE FALSE
RECURSIVE Split(_, _, _)
Split(s, i, cur) ==
  IF i > Len(s) THEN (IF cur = "" THEN {} ELSE {cur})
  ELSE IF Ch(s, i) = "," THEN (IF cur = "" THEN {} ELSE {cur}) \cup Split(s, i + 1, "") ELSE Split(s, i + 1, cur \o Ch(s, i))
Built == {"mapping.bool_tags", "mapping.curvature_too_big", "mapping.duplicated_points", "mapping.mandatory_tags", "mapping.points_too_close",
          "mapping.unknown_tag_value", "mapping.unknown_tags", "routing.graph_is_valid"}
Checks == Built \cup {"custom.map", "custom.rules", "zcustom.graph"}
Selected(f) == LET parts == Split(f, 1, "") IN
               IF parts = {} THEN Checks ELSE {c \in Checks : \E re \in parts : Fits(re, 1, c, 1)}

(* ---------------------------------------------------------------- rules on tags *)
StartsWith(s, p) == Len(s) >= Len(p) /\ SubSeq(s, 1, Len(p)) = p
Tags(m, kind, id) == IF <<kind, id>> \in DOMAIN m.at THEN m.at[<<kind, id>>] ELSE E
Elems(m, kinds) == {x \in DOMAIN m.at : x[1] \in kinds}
Known(kind) ==
  CASE kind = "point" -> {"ele", "type", "subtype"}
    [] kind = "linestring" -> {"type", "subtype", "lane_change", "width", "height", "temporary", "color"}
    [] kind = "lanelet" -> {"type", "subtype", "one_way", "name", "region", "speed_limit", "location", "participant"}
    [] kind = "area" -> {"type", "subtype", "speed_limit", "location", "region", "name"}
    [] OTHER -> {"dynamic", "fallback", "sign_type", "speed_limit", "subtype", "type"}
Mandatory(kind) ==
  CASE kind = "linestring" -> {"type"}
    [] kind = "regelem" -> {"type", "subtype"}
    [] OTHER -> {"type", "subtype", "location"}
Flags == {"one_way", "dynamic", "lane_change", "participant", "fallback", "temporary"}
Bools == {"=yes", "=no", "=true", "=false", "=0", "=1"}
Marking == {"=dashed", "=dashed_solid", "=solid", "=solid_dashed", "=solid_solid"}
LineTypes == {"=arrow", "=bike_marking", "=bump", "=curbstone", "=door", "=fence", "=gate", "=guard_rail", "=jersey_barrier", "=keepout", "=lift_gate",
              "=line_thick", "=line_thin", "=pedestrian_marking", "=rail", "=road_border", "=stop_line", "=symbol", "=traffic_light", "=traffic_sign",
              "=trajectory", "=virtual", "=visualization", "=wall", "=zebra_marking", "=zig-zag"}
LineSubtypes == ("=line_thick" :> Marking) @@ ("=line_thin" :> Marking) @@ ("=curbstone" :> {"=high", "=low"})
             @@ ("=arrow" :> {"=left", "=left_right", "=right", "=straight", "=straight_left", "=straight_right"})
             @@ ("=bike_marking" :> {"=dashed", "=solid"}) @@ ("=pedestrian_marking" :> {"=dashed", "=solid"}) @@ ("=stop_line" :> {"=dashed", "=solid"})
             @@ ("=bump" :> {}) @@ ("=virtual" :> {})
             @@ ("=traffic_light" :> {"=red", "=red_green", "=red_yellow", "=red_yellow_green"})
Locations == {"=nonurban", "=private", "=urban"}
RoadUse == {"=bicycle_lane", "=bus_lane", "=crosswalk", "=emergency_lane", "=exit", "=highway", "=play_street", "=road", "=shared_walkway", "=stairs", "=walkway"}
(* the values an attribute may have; AnyValue: all *)
AnyValue == {"*"}
Values(m, kind, id, key) ==
  LET t == Tags(m, kind, id) IN
  CASE kind = "point" -> IF key = "type" THEN {"=dot", "=end", "=pole", "=post", "=start"} ELSE AnyValue
    [] kind = "linestring" -> IF key = "type" THEN LineTypes
                              ELSE IF key = "subtype" /\ "type" \in DOMAIN t THEN (IF t["type"] \in DOMAIN LineSubtypes THEN LineSubtypes[t["type"]] ELSE AnyValue)
                              ELSE AnyValue
    [] kind = "lanelet" -> IF key = "type" THEN {"=lanelet"} ELSE IF key = "subtype" THEN RoadUse \cup {"=rail"} ELSE IF key = "location" THEN Locations ELSE AnyValue
    [] kind = "area" -> IF key = "type" THEN {"=multipolygon"}
                        ELSE IF key = "subtype" THEN RoadUse \cup {"=building", "=freespace", "=keepout", "=parking", "=traffic_island", "=vegetation"}
                        ELSE IF key = "location" THEN Locations ELSE AnyValue
    [] OTHER -> IF key = "type" THEN {"=regulatory_element"} ELSE AnyValue
Word(v) == IF v = "=" THEN {} ELSE {v}
All5 == {"point", "linestring", "lanelet", "area", "regelem"}
No4 == All5 \ {"point"}
(* an issue: severity, kind of the element, id, words of the message, and a number that tells apart issues that look the same *)
BoolTags(m) == UNION {{<<"Warning", x[1], x[2], {k} \cup Word(m.at[x][k]), 0>> :
                       k \in {k \in DOMAIN m.at[x] : (\E f \in Flags : StartsWith(k, f)) /\ m.at[x][k] \notin Bools}} : x \in Elems(m, No4)}
UnknownTags(m) == UNION {{<<"Warning", x[1], x[2], {k}, 0>> : k \in {k \in DOMAIN m.at[x] : ~\E f \in Known(x[1]) : StartsWith(k, f)}} : x \in Elems(m, All5)}
MandatoryTags(m) == UNION {{<<"Warning", x[1], x[2], {k}, 0>> : k \in Mandatory(x[1]) \ DOMAIN m.at[x]} : x \in Elems(m, No4)}
UnknownValue(m) == UNION {{<<"Warning", x[1], x[2], {k} \cup Word(m.at[x][k]), 0>> :
                           k \in {k \in DOMAIN m.at[x] : LET v == Values(m, x[1], x[2], k) IN v # AnyValue /\ m.at[x][k] \notin v}} : x \in Elems(m, All5)}

(* ---------------------------------------------------------------- rules on the geometry *)
Sq(x) == x * x
Min2(a, b) == IF a < b THEN a ELSE b
Abs(x) == IF x < 0 THEN -x ELSE x
Dist2(m, p, q) == LET a == m.pt[p] b == m.pt[q] IN
                  IF Abs(a[1] - b[1]) > 9 \/ Abs(a[2] - b[2]) > 9 \/ Abs(a[3] - b[3]) > 9 THEN 99
                  ELSE Sq(a[1] - b[1]) + Sq(a[2] - b[2]) + Sq(a[3] - b[3])
Closer(m, p, d) == {q \in DOMAIN m.pt \ {p} : Dist2(m, p, q) <= d}
(* less than 5 cm is too close; exactly 5 cm is not decided *)
CloseMust(m) == {p \in DOMAIN m.pt : Closer(m, p, 24) # {}}
CloseMay(m) == {p \in DOMAIN m.pt : Closer(m, p, 25) # {}}
Doubles(q) == {q[i] : i \in {i \in 1..(Len(q) - 1) : q[i] = q[i + 1]}}
(* bounds lie on whole metres. 2: curvature above 0.5, 1: not decided (exactly 0.5, or one of the segments is empty), 0: below *)
Bend(m, a, b, c) ==
  LET P(p) == <<m.pt[p][1] \div 100, m.pt[p][2] \div 100>>
      u == <<P(b)[1] - P(a)[1], P(b)[2] - P(a)[2]>>
      v == <<P(c)[1] - P(b)[1], P(c)[2] - P(b)[2]>>
      w == <<u[1] + v[1], u[2] + v[2]>>
      L(x) == Sq(x[1]) + Sq(x[2])
      x == u[1] * v[2] - u[2] * v[1]
      lhs == 16 * Sq(x)
      rhs == L(u) * L(v) * L(w)
  IN IF L(u) = 0 \/ L(v) = 0 THEN 1 ELSE IF L(w) = 0 THEN 2 ELSE IF lhs > rhs THEN 2 ELSE IF lhs = rhs THEN 1 ELSE 0
Bounds(m, i) == << m.ls[m.ll[i][1]], m.ls[m.ll[i][3]] >>
Curved(m, d) ==
  UNION {UNION {{<<"Warning", "lanelet", i, {"#" \o Str(Bounds(m, i)[k][j])}, 1000 * k + j>> :
                 j \in {j \in 2..(Len(Bounds(m, i)[k]) - 1) : Bend(m, Bounds(m, i)[k][j - 1], Bounds(m, i)[k][j], Bounds(m, i)[k][j + 1]) >= d}} : k \in {1, 2}} :
         i \in DOMAIN m.ll}
DoubledOf(m) == [ls |-> {i \in DOMAIN m.ls : Doubles(m.ls[i]) # {}}, pg |-> {i \in DOMAIN m.pg : Doubles(m.pg[i]) # {}}]
Doubled(m) == {<<"Error", "linestring", i, {}, 0>> : i \in DoubledOf(m).ls} \cup {<<"Error", "polygon", i, {}, 0>> : i \in DoubledOf(m).pg}
TooClose(m, P) == {<<"Warning", "point", p, {}, 0>> : p \in P}

(* the graph is consistent if no line has two lanelets on one of its sides, and no two lanelets have both bounds in common; if it has, and all can be used, it is not *)
Sides(m) == UNION {{<<i, m.ll[i][1], m.ll[i][2], "right">>, <<i, m.ll[i][3], m.ll[i][4], "left">>} : i \in DOMAIN m.ll}
SideOf(x) == <<x[2], IF x[3] = 0 THEN x[4] ELSE IF x[4] = "left" THEN "right" ELSE "left">>
Regular(m) == /\ \A x, y \in Sides(m) : x[1] # y[1] => SideOf(x) # SideOf(y)
              /\ \A i, j \in DOMAIN m.ll : i # j => {m.ll[i][1], m.ll[i][3]} # {m.ll[j][1], m.ll[j][3]}
(* two lanelets have the same neighbour *)
Plain(m, i) == LET t == Tags(m, "lanelet", i) IN "subtype" \in DOMAIN t /\ DOMAIN t \subseteq {"type", "subtype", "location"} /\ t["subtype"] = "=road"
Torn(m) == /\ \A i \in DOMAIN m.ll : Plain(m, i)
           /\ \E x, y, z \in Sides(m) : /\ x[1] # y[1] /\ x[1] # z[1] /\ y[1] # z[1] /\ x[2] = y[2] /\ y[2] = z[2]
                                        /\ x[3] = y[3] /\ y[3] = z[3] /\ x[4] = y[4] /\ x[4] # z[4]

(* ---------------------------------------------------------------- everything for one filter: by check the issues that must and may be there *)
Custom(m) == IF DOMAIN m.pt = {} THEN {} ELSE {<<"Info", "point", 0, {}, 0>>, <<"Error", "point", 0, {}, 0>>, <<"Warning", "area", 77, {}, 0>>, <<"Warning", "area", 77, {}, 1>>}
PerRules(parts, t(_), loc) == {t(j) : j \in DOMAIN parts}
(* recorded, not repaired: subtypes of line strings are not compared with the values of their type *)
SubtypeUnread(e, m) == "KF_linestring_subtype" \in DOMAIN IOEnv /\ e[2] = "linestring" /\ "subtype" \in e[4] /\ "type" \in DOMAIN Tags(m, e[2], e[3])
Must(m, c, parts) ==
  CASE c = "mapping.bool_tags" -> BoolTags(m)
    [] c = "mapping.unknown_tags" -> UnknownTags(m)
    [] c = "mapping.unknown_tag_value" -> {e \in UnknownValue(m) : ~SubtypeUnread(e, m)}
    [] c = "mapping.mandatory_tags" -> MandatoryTags(m)
    [] c = "mapping.curvature_too_big" -> Curved(m, 2)
    [] c = "mapping.duplicated_points" -> Doubled(m)
    [] c = "mapping.points_too_close" -> TooClose(m, CloseMust(m))
    [] c = "custom.map" -> Custom(m)
    [] c = "custom.rules" -> {<<"Warning", "point", 0, {"=" \o parts[j], "=de"}, j>> : j \in DOMAIN parts}
    [] c = "zcustom.graph" -> {<<"Error", "lanelet", 78, {"=" \o parts[j]}, j>> : j \in DOMAIN parts}
    [] OTHER -> {}
May(m, c, parts) == IF c = "mapping.curvature_too_big" THEN Curved(m, 1) ELSE IF c = "mapping.points_too_close" THEN TooClose(m, CloseMay(m))
                    ELSE IF c = "mapping.unknown_tag_value" THEN UnknownValue(m) ELSE Must(m, c, parts)

(* ---------------------------------------------------------------- judging a run *)
CountSeq(q, t) == Cardinality({i \in DOMAIN q : q[i] = t})
Strip(t) == <<t[1], t[2], t[3], t[4]>>
CountSet(S, t) == Cardinality({e \in S : Strip(e) = t})
RECURSIVE Cat(_, _)
Cat(q, i) == IF i > Len(q) THEN << >> ELSE q[i] \o Cat(q, i + 1)
Of(ent, c) == Cat([i \in DOMAIN ent |-> IF ent[i][1] = c THEN ent[i][2] ELSE << >>], 1)
(* the element that a message names is one of those that cause the issue *)
NamesCause(m, c, i) ==
  IF c = "mapping.points_too_close" /\ i[2] = "point" /\ i[3] \in DOMAIN m.pt THEN \E q \in Closer(m, i[3], 25) : Range(i[4]) \ {"#" \o Str(i[3])} = {"#" \o Str(q)}
  ELSE IF c = "mapping.duplicated_points" /\ i[2] = "linestring" /\ i[3] \in DOMAIN m.ls THEN \E q \in Doubles(m.ls[i[3]]) : Range(i[4]) = {"#" \o Str(q)}
  ELSE IF c = "mapping.duplicated_points" /\ i[2] = "polygon" /\ i[3] \in DOMAIN m.pg THEN \E q \in Doubles(m.pg[i[3]]) : Range(i[4]) = {"#" \o Str(q)}
  ELSE FALSE
Indirect == {"mapping.points_too_close", "mapping.duplicated_points"}
Seen(m, c, i) == <<i[1], i[2], i[3], IF c \in Indirect THEN (IF NamesCause(m, c, i) THEN {} ELSE {"?"}) ELSE Range(i[4])>>
CheckOk(m, c, parts, ent) ==
  LET q == Of(ent, c)
      seen == [j \in DOMAIN q |-> Seen(m, c, q[j])]
      must == Must(m, c, parts)
      may == May(m, c, parts)
  IN IF c = "routing.graph_is_valid"
     THEN /\ \A j \in DOMAIN q : q[j][1] = "Error"
          /\ (parts = << >> \/ Regular(m) => q = << >>)
          /\ ((Torn(m) /\ (\E j \in DOMAIN parts : parts[j] \in {"vehicle", "vehicle:car"})) => q # << >>)
     ELSE \A t \in Range(seen) \cup {Strip(e) : e \in may} : CountSet(must, t) <= CountSeq(seen, t) /\ CountSeq(seen, t) <= CountSet(may, t)
(* the report: errors and warnings of all entries, each once *)
Line(c, i) == i[1] \o ": " \o (IF i[3] = 0 THEN "" ELSE (IF i[2] = "regelem" THEN "regulatory element" ELSE i[2]) \o " " \o Str(i[3]) \o " ") \o i[5] \o " [" \o c \o "]"
LinesOf(ent, s) == Cat([j \in DOMAIN ent |-> LET q == SelectSeq(ent[j][2], LAMBDA i : i[1] = s) IN [k \in DOMAIN q |-> Line(ent[j][1], q[k])]], 1)
SameBag(a, b) == Len(a) = Len(b) /\ \A t \in Range(a) \cup Range(b) : CountSeq(a, t) = CountSeq(b, t)
ReportOk(o) == /\ SameBag(o.err, LinesOf(o.ent, "Error")) /\ SameBag(o.warn, LinesOf(o.ent, "Warning"))
               /\ o.n = <<Len(o.err), Len(o.warn)>>
NoneEmpty(ent) == \A i \in DOMAIN ent : ent[i][2] # << >>
Flat(ent) == Cat([i \in DOMAIN ent |-> [j \in DOMAIN ent[i][2] |-> <<ent[i][1], ent[i][2][j]>>]], 1)

Tail2(a, i) == SubSeq(a, i, Len(a))
Text(f) == SubSeq(f, 2, Len(f))
RunOk(m, a, o) ==
  LET sel == Selected(Text(a[1]))
      parts == IF Len(a) >= 3 THEN Tail2(a, 3) ELSE <<"vehicle">>
      wrong == {c \in Checks : ~(IF c \in sel THEN CheckOk(m, c, parts, o.ent) ELSE Of(o.ent, c) = << >>)}
      other == {o.ent[i][1] : i \in DOMAIN o.ent} \ Checks
  IN IF wrong # {} THEN [ok |-> FALSE, out |-> <<"issues of", wrong, [c \in wrong |-> <<Must(m, c, parts), Of(o.ent, c)>>]>>]
     ELSE IF other # {} THEN [ok |-> FALSE, out |-> <<"unknown check", other>>]
     ELSE IF ~ReportOk(o) THEN [ok |-> FALSE, out |-> <<"report", LinesOf(o.ent, "Error"), LinesOf(o.ent, "Warning")>>]
     ELSE [ok |-> TRUE, out |-> << >>]
(* a file: what reading complains about is reported as well, the rest is what the loaded map gives; the tool prints the report *)
FileOk(m, a, o) ==
  LET gen == Of(o.ent, "general")
      rest == SelectSeq(o.ent, LAMBDA e : e[1] # "general")
      wrong == Text(a[2])
      complaints == a[1] # "none"
  IN IF o.threw # (a[1] \in {"xml", "missing"}) THEN [ok |-> FALSE, out |-> <<"loading">>]
     ELSE IF o.threw /\ ~(Len(gen) = 1 /\ gen[1][1] = "Error" /\ rest = << >>) THEN [ok |-> FALSE, out |-> <<"a map that cannot be loaded is one error">>]
     ELSE IF ~o.threw /\ complaints /\ o.le = << >> THEN [ok |-> FALSE, out |-> <<"errors of the file">>]
     ELSE IF ~o.threw /\ ~SameBag([i \in DOMAIN gen |-> <<gen[i][1], gen[i][3], gen[i][5]>>], [i \in DOMAIN o.le |-> <<"Error", 0, o.le[i]>>])
          THEN [ok |-> FALSE, out |-> <<"general issues">>]
     ELSE IF ~SameBag(Flat(rest), Flat(o.mem)) THEN [ok |-> FALSE, out |-> <<"differs from the validation of the loaded map">>]
     ELSE IF \E c \in Checks \ Selected(Text(a[2])) : Of(o.ent, c) # << >> THEN [ok |-> FALSE, out |-> <<"not selected">>]
     ELSE IF ~ReportOk(o) THEN [ok |-> FALSE, out |-> <<"report">>]
     ELSE IF o.rc # (IF \E i \in DOMAIN o.ent : o.ent[i][2] # << >> THEN 1 ELSE 0) THEN [ok |-> FALSE, out |-> <<"exit code">>]
     ELSE IF ~(\A t \in Range(o.err) : CountSeq(o.errs, t) = CountSeq(o.err, t)) \/ ~(\A t \in Range(o.warn) : CountSeq(o.out, t) = CountSeq(o.warn, t))
          THEN [ok |-> FALSE, out |-> <<"printed">>]
     ELSE IF Len(o.errs) # Len(o.err) \/ Len(o.out) # Len(o.warn) + 1 THEN [ok |-> FALSE, out |-> <<"number of printed lines">>]
     ELSE IF ~StartsWith(o.out[Len(o.out)], Str(Len(o.err) + Len(o.warn)) \o " ") THEN [ok |-> FALSE, out |-> <<"number of issues">>]
     ELSE [ok |-> TRUE, out |-> << >>]
ChecksOk(a, o) ==
  LET sel == Selected(Text(a[1])) IN
  IF ~(Range(o.names) = sel /\ Len(o.names) = Cardinality(sel)) THEN [ok |-> FALSE, out |-> sel]
  ELSE IF o.rc # 0 \/ o.errs # << >> THEN [ok |-> FALSE, out |-> <<"printing checks">>]
  ELSE IF \E c \in Checks : CountSeq(o.out, c) # (IF c \in sel THEN 1 ELSE 0) THEN [ok |-> FALSE, out |-> <<"printed checks">>]
  ELSE [ok |-> TRUE, out |-> << >>]
(* the command line *)
Num == ("=0" :> 0) @@ ("=49" :> 392) @@ ("=8.5" :> 68) @@ ("=-33.125" :> -265) @@ ("=-8" :> -64)
C0 == [filter |-> "", location |-> "de", parts |-> << >>, lat |-> 0, lon |-> 0, file |-> "", print |-> FALSE, help |-> FALSE]
RECURSIVE Cli(_, _, _)
Cli(a, i, c) ==
  IF i > Len(a) THEN (IF c.parts = << >> THEN [c EXCEPT !.parts = <<"vehicle">>] ELSE c)
  ELSE CASE a[i] \in {"-f", "--filter"} -> Cli(a, i + 2, [c EXCEPT !.filter = Text(a[i + 1])])
         [] a[i] \in {"-l", "--location"} -> Cli(a, i + 2, [c EXCEPT !.location = Text(a[i + 1])])
         [] a[i] \in {"-p", "--participants"} -> Cli(a, i + 2, [c EXCEPT !.parts = Append(@, Text(a[i + 1]))])
         [] a[i] = "--lat" -> Cli(a, i + 2, [c EXCEPT !.lat = Num[a[i + 1]]])
         [] a[i] = "--lon" -> Cli(a, i + 2, [c EXCEPT !.lon = Num[a[i + 1]]])
         [] a[i] = "--print" -> Cli(a, i + 1, [c EXCEPT !.print = TRUE])
         [] a[i] \in {"-h", "--help"} -> Cli(a, i + 1, [c EXCEPT !.help = TRUE])
         [] OTHER -> Cli(a, i + 1, [c EXCEPT !.file = Text(a[i])])

(* ---------------------------------------------------------------- transitions *)
Apply(m, op, a) ==
  CASE op = "reset" -> S0
    [] op = "pt" -> [m EXCEPT !.pt = With(@, a[1], <<a[2], a[3], a[4]>>), !.at = With(@, <<"point", a[1]>>, E)]
    [] op = "ls" -> [m EXCEPT !.ls = With(@, a[1], Tail2(a, 2)), !.at = With(@, <<"linestring", a[1]>>, E)]
    [] op = "pg" -> [m EXCEPT !.pg = With(@, a[1], Tail2(a, 2)), !.at = With(@, <<"polygon", a[1]>>, E)]
    [] op = "ll" -> [m EXCEPT !.ll = With(@, a[1], Tail2(a, 2)), !.at = With(@, <<"lanelet", a[1]>>, E)]
    [] op = "ar" -> [m EXCEPT !.at = With(@, <<"area", a[1]>>, E)]
    [] op = "rg" -> [m EXCEPT !.at = With(@, <<"regelem", a[1]>>, E)]
    [] op = "tag" -> [m EXCEPT !.at[<<a[1], a[2]>>] = With(@, a[3], a[4])]
    [] op = "untag" -> [m EXCEPT !.at[<<a[1], a[2]>>] = Less(@, {a[3]})]
    [] OTHER -> m
Ops == {"checks", "run", "file", "cli"}
Step(m, e) ==
  LET a == e.a o == e.o m2 == Apply(m, e.op, a)
      bad == [ok |-> FALSE, out |-> <<"exception">>]
      v == IF e.op \in Ops THEN
             (IF e.op = "checks" THEN (IF "names" \in DOMAIN o THEN ChecksOk(a, o) ELSE bad)
              ELSE IF e.op = "run" THEN (IF "ent" \in DOMAIN o THEN RunOk(m, a, o) ELSE bad)
              ELSE IF e.op = "file" THEN (IF "rc" \in DOMAIN o THEN FileOk(m, a, o) ELSE bad)
              ELSE IF "filter" \in DOMAIN o THEN (IF o = Cli(a, 1, C0) THEN [ok |-> TRUE, out |-> << >>] ELSE [ok |-> FALSE, out |-> Cli(a, 1, C0)]) ELSE bad)
           ELSE [ok |-> "ret" \in DOMAIN o, out |-> <<"exception">>]
  IN [st |-> m2, ok |-> v.ok, out |-> v.out]
=============================================================================
