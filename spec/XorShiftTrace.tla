--------------------------- MODULE XorShiftTrace ---------------------------
(* Two generators started from one seed.                                   *)
EXTENDS TraceBase, XorShift
VARIABLES tr, l, g, g0
Init == tr \in 1..NT /\ l = 1 /\ g = <<>> /\ g0 = <<>>
Step(e) ==
  \/ e.e = "seed" /\ g0' = <<e.a, e.b>> /\ g' = <<g0', g0'>>
  \/ e.e = "next" /\ LET n == NextWord(g[e.w + 1]) IN e.r = n[1] /\ g' = [g EXCEPT ![e.w + 1] = n[2]] /\ g0' = g0
  \/ e.e = "mask" /\ e.g /\ LET n == Mask(e.in, g[e.w + 1]) IN e.out = n[1] /\ g' = [g EXCEPT ![e.w + 1] = n[2]] /\ g0' = g0
  \/ e.e = "state" /\ g[e.w + 1] = <<e.a, e.b>> /\ UNCHANGED <<g, g0>>
  \/ e.e = "pieces" /\ e.once = Mask(e.in, g0)[1] /\ e.pieces = e.once /\ e.twice = e.in /\ UNCHANGED <<g, g0>>
  \/ e.e = "long" /\ e.g /\ e.pieces = e.once /\ e.twice = e.in /\ e.zeros = e.ks
                  /\ \A i \in 2..Len(e.st) : e.st[i] = e.st[1]
                  /\ UNCHANGED <<g, g0>>
  \/ e.e = "fin" /\ UNCHANGED <<g, g0>>
Next == /\ l <= Len(Traces[tr].ev) /\ l' = l + 1 /\ tr' = tr /\ Step(Traces[tr].ev[l])
Progress == Reached(tr, l)
============================================================================
