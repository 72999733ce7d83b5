----------------------------- MODULE TraceUtil -----------------------------
(* shared by all trace specifications: reading the recorded trace and matching one observation *)
EXTENDS TLC, Json, IOUtils, Sequences, Naturals

Trace == ndJsonDeserialize(IOEnv.TRACE)

(* the observation of line l has to be the expected one; the first difference is printed *)
Match(l, expected) ==
  IF expected = Trace[l].o THEN TRUE
  ELSE PrintT(ToJson([mismatch |-> l, expected |-> expected, observed |-> Trace[l]])) /\ FALSE

(* relational variant: ok is the verdict, why explains it *)
Verdict(l, ok, why) ==
  IF ok THEN TRUE
  ELSE PrintT(ToJson([mismatch |-> l, expected |-> why, observed |-> Trace[l]])) /\ FALSE

AllConsumed == TLCGet("stats").diameter - 1 = Len(Trace)
=============================================================================
