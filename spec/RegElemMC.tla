---------------------------- MODULE RegElemMC ----------------------------
EXTENDS RegElem, Json
CONSTANT MaxLen
VARIABLES s, last
vars == <<s, last>>

E6 == <<"", "", "", "", "", "", "">>
Mk(k, r, f, y, w, c, kk, st, tr, tc) == [op |-> "mk", a |-> <<k, r[1], r[2], f[1], f[2], y[1], y[2], w[1], w[2], c[1], c[2], kk[1], kk[2], "", st, tr, tc>>]
N2 == <<"", "">>
Makes ==
   {Mk("TL", r, f, N2, N2, N2, N2, "", "", "") : r \in {<<"l1", "">>, <<"g1", "l1">>, N2}, f \in {N2, <<"l3", "">>}}
 \cup {Mk("ROW", N2, f, y, w, N2, N2, "", "", "") : f \in {N2, <<"l3", "">>}, y \in {<<"L1", "">>, N2}, w \in {<<"L2", "L1~">>, N2}}
 \cup {Mk("TS", r, N2, N2, N2, c, N2, st, tr, "B") : r \in {<<"l1", "">>, N2}, c \in {N2, <<"l2", "">>}, st \in {"", "C"}, tr \in {"", "A"}}
 \cup {Mk("AWS", N2, f, y, N2, N2, N2, "", "", "") : f \in {N2, <<"l1", "">>, <<"l1", "l2">>}, y \in {N2, <<"L1", "">>, <<"L1", "L2">>}}
 \cup {[op |-> "fac", a |-> <<n, "g1", "", f, g, "L1", y, "", "", "", "", "", "", "", "C", "", "">>] :
         n \in {"", "traffic_light", "all_way_stop", "nonsense"}, f \in {"", "l1"}, g \in {"", "l2"}, y \in {"", "L2"}}
Edits ==
  CASE s.kind = "TL" -> {[op |-> o, a |-> <<"refers", t>>] : o \in {"add", "rem"}, t \in {"l1", "l1~", "g1"}}
         \cup {[op |-> "setstop", a |-> <<t>>] : t \in {"l3", "l3~"}} \cup {[op |-> "rmstop", a |-> << >>]}
    [] s.kind = "ROW" -> {[op |-> o, a |-> <<r, t>>] : o \in {"add", "rem"}, r \in {"yield", "right_of_way"}, t \in {"L1", "L1~", "L2"}}
         \cup {[op |-> "setstop", a |-> <<"l3">>], [op |-> "rmstop", a |-> << >>], [op |-> "kill", a |-> <<"L1">>]}
    [] s.kind = "TS" -> {[op |-> o, a |-> <<"refers", t>>] : o \in {"add", "rem"}, t \in {"l1", "l1~"}}
         \cup {[op |-> o, a |-> <<"ref_line", "l3">>] : o \in {"add", "rem"}}
         \cup {[op |-> o, a |-> <<"cancel_line", "l4">>] : o \in {"add", "rem"}}
         \cup {[op |-> "rem", a |-> <<"cancels", t>>] : t \in {"l1", "l2"}}
         \cup {[op |-> "addcanc", a |-> <<ty, t, "">>] : ty \in {"", "A"}, t \in {"l2"}}
         \cup {[op |-> "sub", a |-> <<"l1", v>>] : v \in {"", "A"}}
    [] s.kind = "AWS" -> {[op |-> "addaws", a |-> <<t, f>>] : t \in {"L1", "L1~", "L2"}, f \in {"", "l1", "l2"}}
         \cup {[op |-> "remaws", a |-> <<t>>] : t \in {"L1", "L1~", "L2"}}
         \cup {[op |-> o, a |-> <<"refers", "g1">>] : o \in {"add", "rem"}} \cup {[op |-> "kill", a |-> <<"L1">>]}
    [] s.kind = "GEN" -> {[op |-> o, a |-> <<r, t>>] : o \in {"gadd"}, r \in {"refers", "foo"}, t \in {"l1", "L1", "a1", "p1", "g1"}}
         \cup {[op |-> "gadde", a |-> <<"refers", t>>] : t \in {"L1~"}}
    [] OTHER -> {}
Bounded(x) == \A r \in RoleSet : Len(x.par[r]) <= MaxLen

Init == s = S0 /\ last = [op |-> "reset", a |-> << >>]
Next == \E o \in (IF s.kind = "none" THEN Makes ELSE Edits) :
          LET n == Step(s, o).st IN Bounded(n) /\ s' = n /\ last' = o
Spec == Init /\ [][Next]_vars
vw == s
TypeOK == \A r \in RoleSet : \A i \in 1..Len(s.par[r]) : s.par[r][i] \in LP \cup LL \cup AR \cup PT
(* the property itself, stated over the specification's state *)
StopLinesComplete == s.kind = "AWS" => (s.par["ref_line"] = << >> \/ Len(s.par["ref_line"]) = Len(s.par["yield"]))
OneStopLine == s.kind \in {"TL", "ROW"} => Len(s.par["ref_line"]) <= 1
(* the other lanelets keep their stop lines *)
KeepsStops == [][ (last'.op \in {"addaws", "remaws", "kill"} /\ s.kind = "AWS") =>
   \A t \in Range(LaneletTokens(s')) : (IndexOf(s.par["yield"], t) # 0 /\ IndexOf(s'.par["yield"], t) # 0
        /\ Cardinality({i \in 1..Len(s.par["yield"]) : s.par["yield"][i] = t}) = 1)
        => StopOf(s, t) = StopOf(s', t) ]_vars
(* a refused edit changes nothing; an edit touches one role only (and the stop lines of an all way stop) *)
Frame == [][ s.kind # "none" => \A r \in RoleSet : s.par[r] # s'.par[r] =>
      (last'.op \in {"add", "rem", "gadd", "gadde"} /\ r = last'.a[1]) \/ (last'.op \in {"setstop", "rmstop"} /\ r = "ref_line")
      \/ (last'.op \in {"addaws", "remaws"} /\ r \in {"yield", "ref_line"}) \/ (last'.op = "addcanc" /\ r = "cancels") ]_vars
Emit == PrintT(ToJson([f |-> ToString(s), t |-> ToString(s'), lv |-> TLCGet("level"), op |-> last'.op, a |-> last'.a]))
=============================================================================
