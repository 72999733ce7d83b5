----------------------------- MODULE HybridMap -----------------------------
(* C07 - attribute maps (lanelet::HybridMap / AttributeMap and the attribute interface of primitives).
   The state is what a user sees: a few maps (slots) from names to values. Every public operation is one transition.
   The fast name constants are not state: a lookup through the constant is defined to be the lookup through its string. *)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt, TLC

CONSTANTS Slots,        \* names of the maps ("P" is the attribute map of a primitive)
          KeyOrder,     \* all names used, in std::string order
          Known,        \* names that have a fast constant, in the order of the constants
          Values

Keys == ToSet(KeyOrder)
Empty == [k \in {} |-> ""]
S0 == [x \in Slots |-> Empty]

Has(m, k) == k \in DOMAIN m
Put(m, k, v) == [x \in DOMAIN m \cup {k} |-> IF x = k THEN v ELSE m[x]]
Del(m, k) == [x \in DOMAIN m \ {k} |-> m[x]]
Order(m) == SelectSeq(KeyOrder, LAMBDA k : k \in DOMAIN m)

(* what the driver reports about a map after every operation on it *)
View(m) == [ items |-> [i \in 1..Len(Order(m)) |-> <<Order(m)[i], m[Order(m)[i]]>>],
             byname |-> [i \in 1..Len(Known) |-> IF Has(m, Known[i]) THEN <<Known[i], m[Known[i]]>> ELSE << >>],
             size |-> Cardinality(DOMAIN m),
             empty |-> DOMAIN m = {} ]

Upd(s, x, m) == [s EXCEPT ![x] = m]
R(s, st, x, ret) == [st |-> st, out |-> [ret |-> ret, map |-> View(st[x])]]
R2(st, x, y, ret) == [st |-> st, out |-> [ret |-> ret, map |-> View(st[x]), map2 |-> View(st[y])]]
Found(m, k) == IF Has(m, k) THEN <<k, m[k]>> ELSE << >>
Throws == "out_of_range"
ThrowsP == "NoSuchAttributeError"

Step(s, e) ==
  LET op == e.op
      x == e.a[1]
      m == s[x]
      k == e.a[2]
  IN CASE op = "reset" -> [st |-> S0, out |-> [ok |-> TRUE]]
     [] op = "insert" \/ op = "insertHint" ->       \* a present key keeps its value
          R(s, Upd(s, x, IF Has(m, k) THEN m ELSE Put(m, k, e.a[3])), x,
            <<k, IF Has(m, k) THEN m[k] ELSE e.a[3], IF op = "insertHint" THEN TRUE ELSE ~Has(m, k)>>)
     [] op = "set" \/ op = "setEnum" \/ op = "setAttr" \/ op = "setAttrEnum" ->
          R(s, Upd(s, x, Put(m, k, e.a[3])), x, e.a[3])
     [] op = "get" \/ op = "getEnum" ->             \* operator[] inserts a default value
          R(s, Upd(s, x, IF Has(m, k) THEN m ELSE Put(m, k, "")), x, IF Has(m, k) THEN m[k] ELSE "")
     [] op = "assignFound" \/ op = "assignFoundEnum" ->  \* write through the iterator / reference of a lookup
          R(s, IF Has(m, k) THEN Upd(s, x, Put(m, k, e.a[3])) ELSE s, x, Has(m, k))
     [] op = "find" \/ op = "findEnum" -> R(s, s, x, Found(m, k))
     [] op = "at" \/ op = "atEnum" -> R(s, s, x, IF Has(m, k) THEN m[k] ELSE Throws)
     [] op = "attr" \/ op = "attrEnum" -> R(s, s, x, IF Has(m, k) THEN m[k] ELSE ThrowsP)
     [] op = "attrOr" \/ op = "attrOrEnum" -> R(s, s, x, IF Has(m, k) THEN m[k] ELSE "dflt")
     [] op = "hasAttr" \/ op = "hasAttrEnum" -> R(s, s, x, Has(m, k))
     [] op = "erase" -> R(s, Upd(s, x, Del(m, k)), x, IF Has(m, k) THEN 1 ELSE 0)
     [] op = "eraseIt" \/ op = "eraseItEnum" ->     \* returns the following entry
          LET rest == Order(m)
              i == CHOOSE j \in 1..Len(rest) : rest[j] = k
          IN R(s, Upd(s, x, Del(m, k)), x,
               IF ~Has(m, k) THEN <<"none">>
               ELSE IF i = Len(rest) THEN <<"end">> ELSE <<rest[i + 1], m[rest[i + 1]]>>)
     [] op = "clear" -> R(s, Upd(s, x, Empty), x, TRUE)
     [] op = "copyCtor" \/ op = "copyAssign" \/ op = "rangeCtor" ->          \* a[2] := copy of a[1]
          R2(Upd(s, e.a[2], m), x, e.a[2], s[e.a[2]] = m)
     [] op = "moveCtor" \/ op = "moveAssign" ->      \* a[2] takes over a[1], which is left valid and then cleared
          LET s1 == Upd(Upd(s, x, Empty), e.a[2], m)
          IN R2(s1, x, e.a[2], TRUE)
     [] op = "swap" ->
          R2(Upd(Upd(s, x, s[e.a[2]]), e.a[2], m), x, e.a[2], TRUE)
     [] op = "eq" -> R(s, s, x, <<m = s[e.a[2]], m # s[e.a[2]]>>)
     [] op = "selfCopy" -> R(s, s, x, TRUE)

KeyOps == {"get", "find", "at", "erase", "eraseIt"}
KnownOps == {"getEnum", "findEnum", "atEnum", "eraseItEnum"}
ValOps == {"insert", "insertHint", "set", "assignFound"}
KnownValOps == {"setEnum", "assignFoundEnum"}
PairOps == {"copyCtor", "copyAssign", "rangeCtor", "moveCtor", "moveAssign", "swap", "eq"}
PairOpsP == {"copyAssign", "moveAssign", "swap", "eq"}
SlotOps == {"clear", "selfCopy"}

Ops ==   {[op |-> o, a |-> <<x, k>>] : o \in KeyOps, x \in Slots, k \in Keys}
    \cup {[op |-> o, a |-> <<x, k>>] : o \in KnownOps, x \in Slots, k \in ToSet(Known)}
    \cup {[op |-> o, a |-> <<x, k, v>>] : o \in ValOps, x \in Slots, k \in Keys, v \in Values}
    \cup {[op |-> o, a |-> <<x, k, v>>] : o \in KnownValOps, x \in Slots, k \in ToSet(Known), v \in Values}
    \cup {[op |-> o, a |-> <<x>>] : o \in SlotOps, x \in Slots}
    \cup {e \in {[op |-> o, a |-> <<x, y>>] : o \in PairOps, x \in Slots, y \in Slots} :
            e.a[1] # e.a[2] /\ ("P" \in {e.a[1], e.a[2]} => e.op \in PairOpsP)}
=============================================================================
