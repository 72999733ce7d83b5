----------------------------- MODULE Attributes -----------------------------
(* C06 - typed readings of attribute values.
   at[n]   text of attribute n
   memo    what a reading of <<text, kind>> gives; the first one decides, all later ones - whatever happened to whichever attribute in
           between and whatever runs concurrently - have to be the same; what an attribute was made from is a reading, too
   Meaning(t, k) says what texts of the usual forms mean, independent of any reading. *)
EXTENDS Integers, Sequences, TLC

Kinds == {"b", "i", "id", "d", "v"}
M0 == [at |-> << >>, memo |-> << >>]

(* ---- meaning of texts *)
Dig == "0123456789"
DigitOf(c) == LET S == {i \in 1..10 : SubSeq(Dig, i, i) = c} IN IF S = {} THEN -1 ELSE (CHOOSE i \in S : TRUE) - 1
At(t, i) == IF i > Len(t) THEN "" ELSE SubSeq(t, i, i)
RECURSIVE DigitsFrom(_, _)
DigitsFrom(t, i) == IF i > Len(t) \/ DigitOf(At(t, i)) < 0 THEN << >> ELSE <<DigitOf(At(t, i))>> \o DigitsFrom(t, i + 1)
RECURSIVE Strip0(_)
Strip0(q) == IF Len(q) > 1 /\ q[1] = 0 THEN Strip0(Tail(q)) ELSE q
RECURSIVE Num(_)
Num(q) == IF q = << >> THEN 0 ELSE 10 * Num(SubSeq(q, 1, Len(q) - 1)) + q[Len(q)]
RECURSIVE Str(_)
Str(q) == IF q = << >> THEN "" ELSE At(Dig, q[1] + 1) \o Str(Tail(q))
(* sign, integer part, fraction, rest *)
Split(t) == LET neg == At(t, 1) = "-"
                s == IF neg \/ At(t, 1) = "+" THEN 2 ELSE 1
                ip == DigitsFrom(t, s)
                dot == At(t, s + Len(ip)) = "."
                fp == IF dot THEN DigitsFrom(t, s + Len(ip) + 1) ELSE << >>
                used == s - 1 + Len(ip) + (IF dot THEN 1 + Len(fp) ELSE 0)
            IN [neg |-> neg, plus |-> At(t, 1) = "+", ip |-> ip, dot |-> dot, fp |-> fp, rest |-> (IF used >= Len(t) THEN "" ELSE SubSeq(t, used + 1, Len(t)))]
Words == {"", "x", "abc", "car", "true", "false", "yes", "no", "True", "t", "-", "no_speed", "kmh", "road;bus", "truex", "nope"}
RECURSIVE Above(_, _)
Above(q, m) == q # << >> /\ (q[1] > m[1] \/ (q[1] = m[1] /\ Above(Tail(q), Tail(m))))
Exceeds(q, m) == LET p == Strip0(q) IN Len(p) > Len(m) \/ (Len(p) = Len(m) /\ Above(p, m))
MaxI(neg) == <<2, 1, 4, 7, 4, 8, 3, 6, 4, IF neg THEN 8 ELSE 7>>
MaxId(neg) == <<9, 2, 2, 3, 3, 7, 2, 0, 3, 6, 8, 5, 4, 7, 7, 5, 8, 0, IF neg THEN 8 ELSE 7>>

None == [kind |-> "none", r |-> "none", n |-> 0]
Exactly(r, n) == [kind |-> "exact", r |-> r, n |-> n]
About(n) == [kind |-> "about", r |-> "", n |-> n]
Unknown == [kind |-> "unknown", r |-> "", n |-> 0]
Signed(neg, n) == IF neg THEN -n ELSE n
IntText(p) == LET q == Strip0(p.ip) IN IF q = <<0>> THEN "0" ELSE (IF p.neg THEN "-" ELSE "") \o Str(q)
IntOf(p, max) == IF Exceeds(p.ip, max) THEN None
                 ELSE Exactly(IntText(p), IF Len(Strip0(p.ip)) > 9 THEN 0 ELSE Signed(p.neg, Num(Strip0(p.ip))))
(* thousandths; only for short numbers *)
AllZero(q) == \A i \in 1..Len(q) : q[i] = 0
Milli(p) == LET f == p.fp \o <<0, 0, 0>> IN Signed(p.neg, 1000 * Num(Strip0(p.ip)) + 100 * f[1] + 10 * f[2] + f[3])
Short(p) == Len(Strip0(p.ip)) <= 3 /\ (Len(p.fp) <= 3 \/ AllZero(SubSeq(p.fp, 4, Len(p.fp))))
(* a blank is written ~ *)
Blanks(u) == {u, "~" \o u, "~~" \o u}
UnitOf(rest) == IF rest \in {""} \cup Blanks("km/h") \cup Blanks("kmh") THEN "kmh"
                ELSE IF rest \in Blanks("m/s") \cup Blanks("mps") THEN "mps"
                ELSE IF rest \in Blanks("mph") \cup Blanks("m/h") THEN "mph"
                ELSE IF rest \in {"x", "~x", "~furlong", "kn", "~knots", ";", "~cars", "m", "~k/h"} THEN "none" ELSE "?"
InUnit(m, u) == CASE u = "kmh" -> 1000 * m [] u = "mps" -> 3600 * m [] u = "mph" -> 1609 * m + (344 * m) \div 1000

Meaning(t, k) ==
  IF t \in Words
  THEN IF k = "b" /\ t \in {"true", "yes"} THEN Exactly("true", 1)
       ELSE IF k = "b" /\ t \in {"false", "no"} THEN Exactly("false", 0) ELSE None
  ELSE LET p == Split(t) IN
  IF p.ip = << >> THEN Unknown
  ELSE LET int == ~p.dot /\ p.rest = "" dec == p.rest = "" /\ (p.dot => p.fp # << >>) IN
    CASE k = "b" -> IF t = "1" THEN Exactly("true", 1) ELSE IF t = "0" THEN Exactly("false", 0)
                    ELSE IF int /\ ~p.neg /\ ~p.plus /\ p.ip[1] \notin {0, 1} THEN None
                    ELSE IF ~int /\ (p.rest # "" \/ dec) THEN None ELSE Unknown
      [] k = "i" -> IF int THEN IntOf(p, MaxI(p.neg)) ELSE IF p.rest # "" \/ dec THEN (IF UnitOf(p.rest) = "?" THEN Unknown ELSE None) ELSE Unknown
      [] k = "id" -> IF int THEN IntOf(p, MaxId(p.neg)) ELSE IF p.rest # "" \/ dec THEN (IF UnitOf(p.rest) = "?" THEN Unknown ELSE None) ELSE Unknown
      [] k = "d" -> IF dec /\ Short(p) THEN About(Milli(p)) ELSE IF p.rest # "" /\ UnitOf(p.rest) # "?" THEN None ELSE Unknown
      [] k = "v" -> LET u == UnitOf(p.rest) IN
                    IF u = "none" THEN None ELSE IF u # "?" /\ Short(p) THEN About(InUnit(Milli(p), u)) ELSE Unknown
Abs(x) == IF x < 0 THEN -x ELSE x
Agrees(m, o) == CASE m.kind = "unknown" -> TRUE
                  [] m.kind = "none" -> o.r = "none"
                  [] m.kind = "exact" -> o.r = m.r /\ o.n = m.n
                  [] m.kind = "about" -> o.r # "none" /\ Abs(o.n - m.n) <= 2

(* ---- state *)
Has(f, x) == x \in DOMAIN f
Put(f, x, v) == (x :> v) @@ f
Drop(f, x) == [y \in DOMAIN f \ {x} |-> f[y]]
Ok(M, out) == [st |-> M, ok |-> TRUE, out |-> out]
(* one reading of a text *)
Reading(M, t, k, o) ==
  LET m == Meaning(t, k) ok == Agrees(m, o) /\ (Has(M.memo, <<t, k>>) => M.memo[<<t, k>>] = o.r) IN
  [st |-> IF ok THEN [M EXCEPT !.memo = Put(@, <<t, k>>, o.r)] ELSE M, ok |-> ok,
   out |-> IF Has(M.memo, <<t, k>>) THEN [earlier |-> M.memo[<<t, k>>], meaning |-> m] ELSE [earlier |-> "", meaning |-> m]]
IsReading(o) == "r" \in DOMAIN o /\ "n" \in DOMAIN o

RECURSIVE Readings(_, _, _, _)
(* rs[i] = <<kind, text of the result, number>> all of the same text *)
Readings(M, t, rs, i) == IF i > Len(rs) THEN [st |-> M, ok |-> TRUE, out |-> [earlier |-> "", meaning |-> Unknown]]
                         ELSE LET x == Reading(M, t, rs[i][1], [r |-> rs[i][2], n |-> rs[i][3]]) IN
                              IF x.ok THEN Readings(x.st, t, rs, i + 1) ELSE x
Bad(M, why) == [st |-> M, ok |-> FALSE, out |-> [earlier |-> why, meaning |-> Unknown]]

Step(M, e) == LET op == e.op a == e.a o == e.o IN
  CASE op = "reset" -> Ok([M0 EXCEPT !.memo = M.memo], [ok |-> TRUE])
    [] op = "new" \/ op = "set" -> [st |-> [M EXCEPT !.at = Put(@, a[1], a[2])], ok |-> "t" \in DOMAIN o /\ o.t = a[2], out |-> [t |-> a[2]]]
    [] op = "make" ->       \* from a typed value: name, kind, value -> its text; the value is what the text means
         IF "t" \notin DOMAIN o \/ ~IsReading(o) THEN Bad(M, "no value")
         ELSE LET M1 == [M EXCEPT !.at = Put(@, a[1], o.t)]
                  x == Reading(M1, o.t, a[2], o)
              IN IF a[2] = "v" THEN [st |-> M1, ok |-> Agrees(About(o.n), [r |-> "", n |-> o.n]), out |-> x.out] ELSE x
    [] op \in {"assign", "copy"} -> [st |-> [M EXCEPT !.at = Put(@, a[1], M.at[a[2]])], ok |-> "t" \in DOMAIN o /\ o.t = M.at[a[2]], out |-> [t |-> M.at[a[2]]]]
    [] op = "move" -> [st |-> [M EXCEPT !.at = Put(Drop(@, a[2]), a[1], M.at[a[2]])], ok |-> "t" \in DOMAIN o /\ o.t = M.at[a[2]], out |-> [t |-> M.at[a[2]]]]
    [] op = "swap" -> [st |-> [M EXCEPT !.at = Put(Put(@, a[1], M.at[a[2]]), a[2], M.at[a[1]])],
                       ok |-> "t" \in DOMAIN o /\ o.t = M.at[a[2]], out |-> [t |-> M.at[a[2]]]]
    [] op = "conv" -> IF IsReading(o) THEN Reading(M, M.at[a[1]], a[2], o) ELSE Bad(M, "no reading")
    [] op = "or" ->         \* attributeOr with a default: r tells what came back, d whether it was the default
         IF ~IsReading(o) THEN Bad(M, "no reading")
         ELSE IF ~Has(M.at, a[1]) THEN [st |-> M, ok |-> o.r = "none", out |-> [earlier |-> "none", meaning |-> Unknown]]
         ELSE Reading(M, M.at[a[1]], a[2], o)
    [] op = "text" -> [st |-> M, ok |-> "t" \in DOMAIN o /\ o.t = M.at[a[1]], out |-> [t |-> M.at[a[1]]]]
    [] op = "explore" ->    \* every reading under every schedule
         IF "rs" \in DOMAIN o THEN Readings(M, M.at[a[1]], o.rs, 1) ELSE Bad(M, "no exploration")
    [] op = "race" ->       \* real threads under the race detector
         IF "rs" \in DOMAIN o /\ "races" \in DOMAIN o
         THEN IF o.races # 0 THEN Bad(M, "unordered accesses") ELSE Readings(M, M.at[a[1]], o.rs, 1)
         ELSE Bad(M, "no run")
Relational == {"new", "set", "make", "assign", "copy", "move", "swap", "conv", "or", "text", "explore", "race"}
=============================================================================
