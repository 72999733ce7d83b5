---------------------------- MODULE ValidationMC ----------------------------
(* All combinations of a few attributes on an element of each kind, and filters put together from all pairs of expressions.
   Invariants: issues concern elements of the map, each attribute gives at most one issue per rule, a filter with two expressions selects what
   either of them selects, and so on. All transitions are executed on the real code. *)
EXTENDS Validation, Json, TLCExt
VARIABLES s, last
O(op, a) == [op |-> op, a |-> a]
Setup == << O("pt", <<101, 0, 0, 0>>), O("pt", <<102, 1000, 0, 0>>), O("pt", <<103, 0, 300, 0>>), O("pt", <<104, 1000, 300, 0>>), O("pt", <<105, 500, 400, 0>>),
            O("ls", <<111, 103, 105, 104>>), O("ls", <<112, 101, 102>>), O("ll", <<121, 111, 0, 112, 0>>), O("ar", <<131, 111, 0>>), O("rg", <<141>>) >>
ASSUME PrintT(ToJson([setup |-> Setup]))
RECURSIVE Run(_, _)
Run(x, i) == IF i > Len(Setup) THEN x ELSE Run(Apply(x, Setup[i].op, Setup[i].a), i + 1)
Base == Run(S0, 1)
Subject == ("point" :> 105) @@ ("linestring" :> 112) @@ ("lanelet" :> 121) @@ ("area" :> 131) @@ ("regelem" :> 141)
Choices(kind) ==
  CASE kind = "point" -> ("type" :> {"=dot", "=foobar"}) @@ ("subtype" :> {"=foobar"}) @@ ("location" :> {"=urban"}) @@ ("temporary" :> {"=maybe"})
    [] kind = "linestring" -> ("type" :> {"=line_thin", "=virtual", "=wall", "=foobar"}) @@ ("subtype" :> {"=solid", "=high", "=foobar"})
                              @@ ("lane_change:left" :> {"=yes", "=maybe"}) @@ ("one_way" :> {"=no", "=nope"})
    [] kind = "lanelet" -> ("type" :> {"=lanelet", "=foobar"}) @@ ("subtype" :> {"=road", "=exit", "=parking"}) @@ ("location" :> {"=urban", "=rural"})
                           @@ ("participant:vehicle" :> {"=yes", "=maybe"}) @@ ("dynamic" :> {"=maybe"})
    [] kind = "area" -> ("type" :> {"=multipolygon", "=lanelet"}) @@ ("subtype" :> {"=road", "=parking", "=rail"}) @@ ("location" :> {"=rural"})
                        @@ ("one_way" :> {"=no", "=nope"})
    [] OTHER -> ("type" :> {"=regulatory_element", "=lanelet"}) @@ ("subtype" :> {"=foobar"}) @@ ("fallback" :> {"=yes", "=maybe"}) @@ ("name" :> {"=a1"})
Kinds == DOMAIN Subject
At(k) == <<k, Subject[k]>>
Alone(k) == \A j \in Kinds \ {k} : s.at[At(j)] = E
Pieces == {"mapping.bool_tags", "mapping.*", "MAPPING.unknown_tag.*", "routing.graph_is_valid", ".*rules", "custom\\.map", "[mc]u*.*p", "mapping", "z*custom.*",
           ".*_[tp]o.*", "", "[^m].*"}
Init == s = Base /\ last = O("reset", << >>)
Next == \/ \E k \in Kinds : Alone(k) /\ \E key \in DOMAIN Choices(k) : \E v \in Choices(k)[key] :
             s' = Apply(s, "tag", <<k, Subject[k], key, v>>) /\ s' # s /\ last' = O("tag", <<k, Subject[k], key, v>>)
        \/ \E k \in Kinds : Alone(k) /\ \E key \in DOMAIN s.at[At(k)] :
             s' = Apply(s, "untag", <<k, Subject[k], key>>) /\ last' = O("untag", <<k, Subject[k], key>>)
        \/ s = Base /\ s' = s /\ \E x, y \in Pieces : last' = O("checks", <<"=" \o x \o "," \o y>>)
Spec == Init /\ [][Next]_<<s, last>>
vw == s
MapRules == {"mapping.bool_tags", "mapping.unknown_tags", "mapping.unknown_tag_value", "mapping.mandatory_tags"}
Sane == \A c \in MapRules : \A i \in Must(s, c, << >>) :
          /\ <<i[2], i[3]>> \in DOMAIN s.at
          /\ (c = "mapping.mandatory_tags") = (\E k \in i[4] : k \notin DOMAIN s.at[<<i[2], i[3]>>] /\ Ch(k, 1) # "=")
          /\ (c # "mapping.mandatory_tags" => i[4] \cap DOMAIN s.at[<<i[2], i[3]>>] # {})
(* a known value of a known attribute is never reported *)
Clean == s = Base \/ \A k \in Kinds : \A key \in DOMAIN s.at[At(k)] :
           (key \in Known(k) /\ key \notin Flags /\ s.at[At(k)][key] \in Values(s, k, Subject[k], key)) =>
             \A c \in MapRules : \A i \in Must(s, c, << >>) : <<i[2], i[3]>> = At(k) => key \notin i[4]
ASSUME \A x, y \in Pieces : (x # "" \/ y # "") => Selected(x \o "," \o y) = (IF x = "" THEN {} ELSE Selected(x)) \cup (IF y = "" THEN {} ELSE Selected(y))
ASSUME \A c \in Checks : Selected(c) = {c} /\ c \in Selected(".*") /\ Selected(c \o ".") = {} /\ Selected(SubSeq(c, 1, Len(c) - 1)) = {}
ASSUME Selected("") = Checks /\ Selected(",") = Checks /\ Selected("mapping.*") = {c \in Checks : StartsWith(c, "mapping.")}
ASSUME Selected("[MC].*") = {c \in Checks : Ch(c, 1) \in {"m", "c"}} /\ Selected("[^mc].*") = {c \in Checks : Ch(c, 1) \notin {"m", "c"}}
Key(x) == ToString(<<TLCFP(x), TLCFP(<<x, "second">>)>>)
Emit == PrintT(ToJson([f |-> Key(s), t |-> Key(s'), lv |-> TLCGet("level"), op |-> last'.op, a |-> last'.a]))
=============================================================================
