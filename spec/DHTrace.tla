------------------------------ MODULE DHTrace ------------------------------
(* Key pairs and shared secrets as produced by the code.                   *)
EXTENDS TraceBase, DH
VARIABLES tr, l
Init == tr \in 1..NT /\ l = 1
Step(e) ==
  \/ e.e = "pair" /\ e.pub = PowP(Five, e.priv)
  \/ e.e = "secret" /\ e.r = PowP(e.base, e.priv)
  \/ e.e = "same" /\ e.x = e.y
  \/ e.e = "fin"
Next == /\ l <= Len(Traces[tr].ev) /\ l' = l + 1 /\ tr' = tr /\ Step(Traces[tr].ev[l])
Progress == Reached(tr, l)
============================================================================
