---------------------------- MODULE RulesMC ----------------------------
(* exhaustive: tags of elements, markings of boundaries, sources of speed limits (one configuration each) *)
EXTENDS Rules, Json, TLCExt
CONSTANTS Mode, Deep
VARIABLES s, last
vars == <<s, last>>

O(op, a) == [op |-> op, a |-> a]
(* C ahead of A; A left of B; area X left of A; area Y behind C's end; area Z next to X *)
Setup(flip) == << O("line", <<"l1", "p1", "p2">>),
   IF flip THEN O("line", <<"l2", "p4", "p3">>) ELSE O("line", <<"l2", "p3", "p4">>), O("line", <<"l3", "p5", "p6">>),
   O("line", <<"l4", "p2", "p7">>), O("line", <<"l5", "p4", "p8">>),
   IF flip THEN O("line", <<"l6", "p7", "p8">>) ELSE O("line", <<"l6", "p8", "p7">>),
   O("line", <<"l7", "p7", "p9", "p8">>), O("line", <<"l8", "p1", "pa", "p2">>), O("line", <<"l9", "p3", "p1">>), O("line", <<"la", "p3", "pb", "p1">>),
   O("llt", <<"A", "l1", 0, "l2", IF flip THEN 1 ELSE 0>>), O("llt", <<"B", "l2", IF flip THEN 1 ELSE 0, "l3", 0>>),
   O("llt", <<"C", "l4", 0, "l5", 0>>),
   O("area", <<"X", "l1", 1, "l8", 0>>), O("area", <<"Y", "l6", IF flip THEN 1 ELSE 0, "l7", 0>>),
   O("area", <<"Z", "l8", 1, "la", 1, "l9", 0>>),
   O("re", <<"r1", "">>), O("re", <<"r2", "de274-30">>) >>
Build[i \in 0..40, flip \in BOOLEAN] == IF i = 0 THEN M0 ELSE Step(Build[i - 1, flip], Setup(flip)[i]).st
World(flip) == Build[Len(Setup(flip)), flip]

Types == {"road", "highway", "bicycle_lane", "play_street", "emergency_lane", "exit", "bus_lane", "walkway", "crosswalk", "stairs",
          "shared_walkway", "parking"}
Parts == {"vehicle", "vehicle:car", "vehicle:car:electric", "vehicle:emergency", "vehicle:bus", "pedestrian", "bicycle"}
T(o, k, v) == O("tag", <<o, k, v>>)
Plain == s.re["A"] = << >>
TagOps == {T("*", "participant:" \o v, b) : v \in {v \in {"vehicle", "vehicle:car", "vehicle:bus", "pedestrian", "bicycle"} :
              Overridden(s, "A", "participant") \subseteq {v}}, b \in {"yes", "no", ""}}
     \cup {O("q", <<"de", p>>) : p \in Parts} \cup {O("q", <<"cu", "vehicle:car">>)}
     \cup (IF Plain THEN {T("*", "subtype", t) : t \in Types \cup {""}}
             \cup {T("*", "one_way", b) : b \in (IF Overridden(s, "A", "one_way") = {} THEN {"yes", "no", ""} ELSE {})}
             \cup {T("*", "one_way:" \o v, b) : v \in {v \in {"vehicle", "vehicle:car", "pedestrian"} :
                  Overridden(s, "A", "one_way") \subseteq {v} /\ ~Has(s, "A", "one_way")}, b \in {"yes", "no", ""}}
             \cup (IF Overridden(s, "A", "one_way") = {} /\ ~Has(s, "A", "one_way") /\ Val(s, "A", "subtype") \in {"", "walkway"}
                  THEN {O("addre", <<"A", "r1">>)} ELSE {})
           ELSE {T("r1", k, b) : k \in {"allow", "dynamic"}, b \in {"yes", "no", ""}}
             \cup (IF s.tags["r1"] = None THEN {O("remre", <<"A", "r1">>)} ELSE {}))
MarkOps == {T("*l", "type", t) : t \in {"line_thin", "line_thick", "curbstone", "virtual", "fence", ""}}
     \cup {T("*l", "subtype", t) : t \in {"solid", "dashed", "dashed_solid", "solid_dashed", "low", "high", ""}}
     \cup {T("*l", "lane_change", b) : b \in (IF Has(s, "l1", "lane_change:left") \/ Has(s, "l1", "lane_change:right") THEN {} ELSE {"yes", "no", ""})}
     \cup {T("*l", "lane_change:" \o d, b) : d \in (IF Has(s, "l1", "lane_change") THEN {} ELSE {"left", "right"}), b \in {"yes", "no", ""}}
     \cup (IF Has(s, "l1", "lane_change:left") # Has(s, "l1", "lane_change:right") THEN {} ELSE
           {O("q", <<"de", p>>) : p \in {"vehicle:car", "pedestrian", "bicycle"}} \cup {O("q", <<"cu", "vehicle">>)})
SpeedOps == {T("*", "location", v) : v \in {"urban", "nonurban", ""}}
     \cup {T("*", "subtype", v) : v \in {"road", "highway", "play_street", ""}}
     \cup {T("*", "speed_limit", v) : v \in {"50#km/h", "10#m/s", ""}}
     \cup {T("*", "speed_limit:" \o v, b) : v \in {v \in {"vehicle", "vehicle:car", "bicycle"} : Overridden(s, "A", "speed_limit") \subseteq {v}}, b \in {"20", ""}}
     \cup {T("*", "speed_limit_mandatory", v) : v \in {"no", ""}}
     \cup {T("*", "speed_limit_mandatory:vehicle", v) : v \in {"no", ""}}
     \cup {O(x, <<"A", "r2">>) : x \in (IF s.re["A"] = << >> THEN {"addre"} ELSE {"remre"})}
     \cup {O("lim", <<"de", p>>) : p \in {"vehicle", "vehicle:car:electric", "pedestrian", "bicycle"}} \cup {O("lim", <<"cu", "vehicle:bus">>)}
Ops == CASE Mode = "tags" -> TagOps [] Mode = "mark" -> MarkOps [] OTHER -> SpeedOps

ASSUME PrintT(ToJson([setup |-> Setup(FALSE), flipped |-> Setup(TRUE)]))
Init == s \in {World(f) : f \in IF Mode = "mark" THEN BOOLEAN ELSE {FALSE}} /\ last = [op |-> "reset", a |-> << >>]
(* observations in the model are empty: queries do not change the state *)
Next == \E o \in Ops : /\ s' = IF o.op \in {"q", "lim"} THEN s ELSE Step(s, o).st
                       /\ last' = o
Spec == Init /\ [][Next]_vars
vw == s
(* ---- properties of the decision tables themselves *)
E0 == [la |-> << >>, al |-> << >>, aa |-> << >>]
Kinds == {"de", "cu"}
PP == {"vehicle:car", "pedestrian", "bicycle"}
(* passing needs both ends usable; nothing changes to a lanelet that is not next to it *)
Sound == \A p \in PP : \A a \in Range(HandlesOf(s)), b \in Range(HandlesOf(s)) :
   /\ PassLL(s, a, b, "de", p) => PassL(s, a, "de", p) /\ PassL(s, b, "de", p)
   /\ ChangeLL(s, a, b, "de", p) => PassL(s, a, "de", p) /\ PassL(s, b, "de", p) /\ a # b
   (* following seen from the other end *)
   /\ Follows(s, a, b) = Follows(s, Inv(b), Inv(a))
   /\ LeftOf(s, a, b) = LeftOf(s, Inv(b), Inv(a))
(* a boundary stored the other way round, with its marking mirrored, allows the same *)
MirrorTag(f) == [k \in {CASE x = "lane_change:left" -> "lane_change:right" [] x = "lane_change:right" -> "lane_change:left" [] OTHER -> x : x \in DOMAIN f} |->
   LET x == CASE k = "lane_change:left" -> "lane_change:right" [] k = "lane_change:right" -> "lane_change:left" [] OTHER -> k IN
   IF k = "subtype" THEN (CASE f[x] = "dashed_solid" -> "solid_dashed" [] f[x] = "solid_dashed" -> "dashed_solid" [] OTHER -> f[x]) ELSE f[x]]
FlipB(b, n) == IF b[1] = n THEN Flip(b) ELSE b
Turned(M, n) == [M EXCEPT !.line[n] = Reverse(@), !.tags[n] = MirrorTag(@),
   !.llt = [x \in DOMAIN @ |-> [l |-> FlipB(@[x].l, n), r |-> FlipB(@[x].r, n)]],
   !.area = [x \in DOMAIN @ |-> [i \in 1..Len(@[x]) |-> FlipB(@[x][i], n)]]]
StorageIrrelevant == \A n \in {"l1", "l2"} : LET t == Turned(s, n) H == {<<x, i>> : x \in {"A", "B"}, i \in {0, 1}} IN
   \A p \in PP : \A a \in H :
     /\ \A b \in H : ChangeLL(s, a, b, "de", p) = ChangeLL(t, a, b, "de", p)
     /\ n = "l1" => /\ LAverdicts(s, a, "X", p) = LAverdicts(t, a, "X", p)
                   /\ ALverdicts(s, "X", a, p) = ALverdicts(t, "X", a, p)
(* the two directions of a lanelet are restricted by one_way only *)
BothWays == \A p \in PP, n \in Range(s.lln) : OneWay(s, <<n, 0>>, p) = (Dir(s, <<n, 0>>, p) # Dir(s, <<n, 1>>, p))
(* a sign wins; what is tagged for a participant wins over what is tagged in general, which wins over the default *)
Precedence == \A p \in PP, o \in {"A", "X"} :
   /\ (Signs(s, o) # << >> /\ IsVehicle(p)) => Limits(s, o, "de", p) = {<<Sign(s.sign[Signs(s, o)[1]]), TRUE>>}
   /\ (Signs(s, o) = << >> /\ ~SpeedTagged(s, o) /\ ~MandTagged(s, o)) => Limits(s, o, "de", p) = {Default(s, o, "de", p)}
Key(x) == ToString(<<TLCFP(x), TLCFP(<<x, "second">>)>>)
Emit == PrintT(ToJson([f |-> Key(s), t |-> Key(s'), lv |-> TLCGet("level"), op |-> last'.op, a |-> last'.a, i |-> s.line["l2"][1]]))
=============================================================================
