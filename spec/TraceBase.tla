---------------------------- MODULE TraceBase ----------------------------
(* Shared machinery of the trace specifications: a batch of recorded      *)
(* executions of the real code is loaded, every behaviour of the trace    *)
(* specification replays one of them event by event, and at the end every *)
(* recording that no behaviour explains completely is reported.           *)
EXTENDS Naturals, Integers, Sequences, FiniteSets, TLC, TLCExt, Json, IOUtils

Traces == ndJsonDeserialize(IOEnv.TRACE)
NT == Len(Traces)

ASSUME RegsInit == \A i \in 1..NT : TLCSet(i, 0)

Max2(a, b) == IF a > b THEN a ELSE b
Min2(a, b) == IF a < b THEN a ELSE b

(* evaluated as an invariant: remembers how far each recording was explained *)
Reached(tr, l) == IF l > TLCGet(tr) THEN TLCSet(tr, l) ELSE TRUE

Has(r, f) == f \in DOMAIN r

AllExplained ==
    /\ \A i \in 1..NT :
          IF TLCGet(i) = Len(Traces[i].ev) + 1 THEN TRUE
          ELSE PrintT(<<"REJECT", i, TLCGet(i)>>)
    /\ PrintT(<<"BATCH", NT>>)
==========================================================================
