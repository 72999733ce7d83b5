------------------------------ MODULE RegElem ------------------------------
(* One regulatory element and the primitives it may refer to. The state is what the element is supposed to remember:
   per role the sequence of primitives added and not removed. All accessors are defined over it. *)
EXTENDS Sequences, Naturals, FiniteSets, TLC, SequencesExt

RoleSet == {"cancel_line", "cancels", "ref_line", "refers", "right_of_way", "yield", "foo"}
RoleOrder == <<"cancel_line", "cancels", "foo", "ref_line", "refers", "right_of_way", "yield">>
StdRoles == <<"cancel_line", "cancels", "ref_line", "refers", "right_of_way", "yield">>
LS == {"l1", "l2", "l3", "l4", "l1~", "l2~", "l3~", "l4~"}
PG == {"g1", "g2"}
LL == {"L1", "L2", "L3", "L1~", "L2~", "L3~"}
AR == {"a1", "a2"}
PT == {"p1", "p2"}
LP == LS \cup PG
Base(t) == CASE t = "l1~" -> "l1" [] t = "l2~" -> "l2" [] t = "l3~" -> "l3" [] t = "l4~" -> "l4"
             [] t = "L1~" -> "L1" [] t = "L2~" -> "L2" [] t = "L3~" -> "L3" [] OTHER -> t
LLBase == <<"L1", "L2", "L3">>
Flip(t) == CASE t = "L1" -> "L1~" [] t = "L2" -> "L2~" [] t = "L3" -> "L3~"

NoPar == [r \in RoleSet |-> << >>]
S0 == [kind |-> "none", par |-> NoPar, sub |-> [t \in {Base(x) : x \in LP} |-> ""],
       sign |-> "", dead |-> {}, subtype |-> "-"]

Dead(s, t) == Base(t) \in s.dead
Only(q, set) == SelectSeq(q, LAMBDA t : t \in set)
NonEmpty(q) == SelectSeq(q, LAMBDA t : t # "")
Live(s, q) == SelectSeq(q, LAMBDA t : ~Dead(s, t))
Head1(q) == IF q = << >> THEN << >> ELSE <<q[1]>>
IndexOf(q, t) == IF \E i \in 1..Len(q) : q[i] = t THEN CHOOSE i \in 1..Len(q) : q[i] = t /\ \A j \in 1..(i - 1) : q[j] # t ELSE 0
DropAt(q, i) == [j \in 1..(Len(q) - 1) |-> IF j < i THEN q[j] ELSE q[j + 1]]

(* ------------------------------------------------ what is observed *)
Show(s, t) == IF Dead(s, t) THEN "x" ELSE t
ParOf(s) == LET rs == SelectSeq(RoleOrder, LAMBDA r : s.par[r] # << >>)
            IN [i \in 1..Len(rs) |-> <<rs[i], [j \in 1..Len(s.par[rs[i]]) |-> Show(s, s.par[rs[i]][j])]>>]
VisOf(s) == FlattenSeq([i \in 1..Len(RoleOrder) |->
              [j \in 1..Len(s.par[RoleOrder[i]]) |-> <<RoleOrder[i], Show(s, s.par[RoleOrder[i]][j])>>]])
TypedOf(s) == [i \in 1..6 |-> LET q == s.par[StdRoles[i]] IN
                <<Only(q, LS), Only(q, PG), Live(s, Only(q, LL)), Only(q, AR), Only(q, PT)>>]
FoundOf(s) == LET all == UNION {{Base(t) : t \in Range(Live(s, s.par[r]))} : r \in RoleSet}
              IN SelectSeq(<<"L1", "L2", "L3", "a1", "a2", "g1", "g2", "l1", "l2", "l3", "l4", "p1", "p2">>,
                           LAMBDA t : t \in all)
LaneletTokens(s) == LET a == SelectSeq(LLBase, LAMBDA t : t \notin s.dead)
                    IN FlattenSeq([i \in 1..Len(a) |-> <<a[i], Flip(a[i])>>])
Stop(s) == Head1(Only(s.par["ref_line"], LS))
Maneuver(s, t) == IF t \in Range(s.par["right_of_way"]) THEN "row" ELSE IF t \in Range(s.par["yield"]) THEN "yield" ELSE "unknown"
(* the type of a sign is the subtype of the first sign, or was given explicitly *)
SignTypeOf(s, par, sub, sign) == LET q == Only(par["refers"], LP) IN
   IF q # << >> THEN (IF sub[Base(q[1])] # "" THEN sub[Base(q[1])] ELSE "!invalid")
   ELSE IF sign # "" THEN sign ELSE "!invalid"
CancelledOf(s) == LET q == Only(s.par["cancels"], LP) IN {s.sub[Base(q[i])] : i \in 1..Len(q)}
NameOrder == <<"A", "B", "C">>
StopOf(s, t) == LET i == IndexOf(s.par["yield"], t) IN
   IF i = 0 \/ s.par["ref_line"] = << >> THEN "-"
   ELSE IF s.par["ref_line"][i] \in LS THEN s.par["ref_line"][i] ELSE "-"

Common(s) == [kind |-> s.kind, par |-> ParOf(s), vis |-> VisOf(s), typed |-> TypedOf(s), found |-> FoundOf(s),
              sub |-> s.subtype, ok |-> TRUE]
View(s) ==
  CASE s.kind = "none" -> [kind |-> "none"]
    [] s.kind = "TL" -> Common(s) @@ [acc |-> <<Only(s.par["refers"], LP), Stop(s)>>]
    [] s.kind = "ROW" -> Common(s) @@ [acc |-> <<Live(s, Only(s.par["right_of_way"], LL)), Live(s, Only(s.par["yield"], LL)), Stop(s)>>,
                                       man |-> [i \in 1..Len(LaneletTokens(s)) |-> <<LaneletTokens(s)[i], Maneuver(s, LaneletTokens(s)[i])>>]]
    [] s.kind \in {"TS", "SL"} -> Common(s) @@
         [acc |-> <<Only(s.par["refers"], LP), Only(s.par["ref_line"], LS), Only(s.par["cancels"], LP), Only(s.par["cancel_line"], LS)>>,
          type |-> SignTypeOf(s, s.par, s.sub, s.sign),
          cts |-> IF "" \in CancelledOf(s) THEN "!noattr" ELSE "ok",
          ct |-> IF "" \in CancelledOf(s) THEN << >> ELSE SelectSeq(NameOrder, LAMBDA x : x \in CancelledOf(s))]
    [] s.kind = "AWS" -> Common(s) @@
         [acc |-> <<Live(s, Only(s.par["yield"], LL)), Only(s.par["ref_line"], LS), Only(s.par["refers"], LP)>>,
          stops |-> [i \in 1..Len(LaneletTokens(s)) |-> <<LaneletTokens(s)[i], StopOf(s, LaneletTokens(s)[i])>>]]
    [] OTHER -> Common(s)

(* ------------------------------------------------ operations *)
R(st, ret) == [st |-> st, out |-> [ret |-> ret, v |-> View(st)]]
Set(s, r, q) == [s EXCEPT !.par[r] = q]
SetSubs(sub, q, v) == IF v = "" THEN sub ELSE [t \in DOMAIN sub |-> IF t \in {Base(q[i]) : i \in 1..Len(q)} THEN v ELSE sub[t]]

ParArgs(a) == [r \in RoleSet |-> CASE r = "refers" -> NonEmpty(<<a[2], a[3]>>) [] r = "ref_line" -> NonEmpty(<<a[4], a[5]>>)
    [] r = "yield" -> NonEmpty(<<a[6], a[7]>>) [] r = "right_of_way" -> NonEmpty(<<a[8], a[9]>>)
    [] r = "cancels" -> NonEmpty(<<a[10], a[11]>>) [] r = "cancel_line" -> NonEmpty(<<a[12], a[13]>>)
    [] r = "foo" -> NonEmpty(<<a[14]>>)]
KindOfRule(n) == CASE n = "traffic_light" -> "TL" [] n = "right_of_way" -> "ROW" [] n = "traffic_sign" -> "TS"
    [] n = "speed_limit" -> "SL" [] n = "all_way_stop" -> "AWS" [] n \in {"regulatory_element", ""} -> "GEN" [] OTHER -> "bad"
RuleOfKind(k) == CASE k = "TL" -> "traffic_light" [] k = "ROW" -> "right_of_way" [] k = "TS" -> "traffic_sign"
    [] k = "SL" -> "speed_limit" [] k = "AWS" -> "all_way_stop" [] OTHER -> "regulatory_element"
(* documented requirements on a new element *)
Legal(s, k, par, sub, sign) ==
  CASE k = "TL" -> Only(par["refers"], LP) # << >> /\ Len(Only(par["ref_line"], LS)) <= 1
    [] k = "ROW" -> Only(par["right_of_way"], LL) # << >> /\ Only(par["yield"], LL) # << >>
    [] k \in {"TS", "SL"} -> SignTypeOf(s, par, sub, sign) # "!invalid"
    [] k = "AWS" -> par["right_of_way"] = << >> /\ (par["ref_line"] = << >> \/ Len(par["ref_line"]) = Len(par["yield"]))
    [] k = "GEN" -> TRUE
    [] OTHER -> FALSE
ParOfKind(k, par, a) ==
  LET keep(rs) == [r \in RoleSet |-> IF r \in rs THEN par[r] ELSE << >>] IN
  CASE k = "TL" -> [keep({"refers", "ref_line"}) EXCEPT !["ref_line"] = Head1(@)]
    [] k = "ROW" -> [keep({"right_of_way", "yield", "ref_line"}) EXCEPT !["ref_line"] = Head1(@)]
    [] k \in {"TS", "SL"} -> keep({"refers", "cancels", "ref_line", "cancel_line"})
    [] k = "SLT" -> keep({"ref_line", "cancel_line"})
    (* stop lines are given per lanelet *)
    [] k = "AWS" -> [keep({"refers", "yield"}) EXCEPT !["ref_line"] =
          NonEmpty(<<IF a[6] = "" THEN "" ELSE a[4], IF a[7] = "" THEN "" ELSE a[5]>>)]
DoMake(s, a) ==
  IF \E i \in 2..14 : a[i] # "" /\ Dead(s, a[i]) THEN R(s, "dead") ELSE
  LET k == IF a[1] = "SLT" THEN "SL" ELSE a[1]
      par == ParOfKind(a[1], ParArgs(a), a)
      typed == k \in {"TS", "SL"} /\ a[1] # "SLT"
      sub1 == IF typed THEN SetSubs(s.sub, par["refers"], a[16]) ELSE s.sub
      sub2 == IF typed THEN SetSubs(sub1, par["cancels"], a[17]) ELSE s.sub
  IN IF Legal(s, k, par, sub2, a[15])
     THEN R([s EXCEPT !.kind = k, !.par = par, !.sub = sub2, !.sign = a[15], !.subtype = RuleOfKind(k)], "ok")
     ELSE R(s, "!invalid")
DoFac(s, a) ==
  IF \E i \in 2..14 : a[i] # "" /\ Dead(s, a[i]) THEN R(s, "dead") ELSE
  LET k == KindOfRule(a[1]) par == ParArgs(a) IN
  IF k # "bad" /\ Legal(s, k, par, s.sub, a[15])
  THEN R([s EXCEPT !.kind = k, !.par = par, !.sign = a[15], !.subtype = RuleOfKind(k)], "ok")
  ELSE R(s, "!invalid")

Editable(s, op, r, t) ==
  CASE s.kind = "TL" -> r = "refers" /\ t \in LP
    [] s.kind = "ROW" -> r \in {"right_of_way", "yield"} /\ t \in LL
    [] s.kind \in {"TS", "SL"} -> (r = "refers" /\ t \in LP) \/ (r \in {"ref_line", "cancel_line"} /\ t \in LS)
                                  \/ (r = "cancels" /\ t \in LP /\ op = "rem")
    [] s.kind = "AWS" -> r = "refers" /\ t \in LP
    [] OTHER -> FALSE
DoEdit(s, op, r, t) ==
  IF Dead(s, t) THEN R(s, "dead")
  ELSE IF ~Editable(s, op, r, t) THEN R(s, "na")
  ELSE IF op = "add" THEN R(Set(s, r, Append(s.par[r], t)), "ok")
  ELSE LET i == IndexOf(s.par[r], t) IN IF i = 0 THEN R(s, "no") ELSE R(Set(s, r, DropAt(s.par[r], i)), "yes")

Step(s, o) ==
  LET a == o.a IN
  CASE o.op = "reset" -> R(S0, "ok")
    [] o.op = "mk" -> DoMake(s, a)
    [] o.op = "fac" -> DoFac(s, a)
    [] o.op = "sub" -> R([s EXCEPT !.sub[Base(a[1])] = a[2]], "ok")
    [] o.op = "kill" -> R([s EXCEPT !.dead = @ \cup {a[1]}], "ok")
    [] o.op \in {"add", "rem"} -> DoEdit(s, o.op, a[1], a[2])
    [] o.op = "addcanc" -> IF s.kind \notin {"TS", "SL"} THEN R(s, "na") ELSE
         LET q == NonEmpty(<<a[2], a[3]>>) IN
         R([Set(s, "cancels", s.par["cancels"] \o q) EXCEPT !.sub = SetSubs(@, q, a[1])], "ok")
    [] o.op = "setstop" -> IF s.kind \notin {"TL", "ROW"} THEN R(s, "na") ELSE R(Set(s, "ref_line", <<a[1]>>), "ok")
    [] o.op = "rmstop" -> IF s.kind \notin {"TL", "ROW"} THEN R(s, "na") ELSE R(Set(s, "ref_line", << >>), "ok")
    [] o.op = "addaws" -> IF Dead(s, a[1]) THEN R(s, "dead") ELSE IF s.kind # "AWS" THEN R(s, "na") ELSE
         LET y == s.par["yield"] f == s.par["ref_line"] IN
         (* all lanelets have a stop line or none has *)
         IF (f = << >> /\ y # << >> /\ a[2] # "") \/ (f # << >> /\ a[2] = "") THEN R(s, "!invalid")
         ELSE R([s EXCEPT !.par["yield"] = Append(@, a[1]),
                          !.par["ref_line"] = IF a[2] = "" THEN @ ELSE Append(@, a[2])], "ok")
    [] o.op = "remaws" -> IF Dead(s, a[1]) THEN R(s, "dead") ELSE IF s.kind # "AWS" THEN R(s, "na") ELSE
         LET i == IndexOf(s.par["yield"], a[1]) IN
         IF i = 0 THEN R(s, "no")
         ELSE R([s EXCEPT !.par["yield"] = DropAt(@, i), !.par["ref_line"] = IF @ = << >> THEN @ ELSE DropAt(@, i)], "yes")
    [] o.op \in {"gadd", "gadde"} -> IF Dead(s, a[2]) THEN R(s, "dead") ELSE IF s.kind # "GEN" THEN R(s, "na") ELSE
         R(Set(s, a[1], Append(s.par[a[1]], a[2])), "ok")
=============================================================================
