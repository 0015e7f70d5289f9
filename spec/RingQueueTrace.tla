-------------------------- MODULE RingQueueTrace --------------------------
(* A FIFO sequence of numbers, unbounded (cap 0) or keeping the most       *)
(* recent cap elements.                                                    *)
EXTENDS TraceBase, SequencesExt
VARIABLES tr, l, q
Cap == Traces[tr].cfg.cap
Bound(s) == IF Cap = 0 \/ Len(s) <= Cap THEN s ELSE SubSeq(s, Len(s) - Cap + 1, Len(s))
Walk(s, n) == LET k == IF n <= 1 THEN Min2(1, Len(s)) ELSE Min2(n, Len(s)) IN [i \in 1..k |-> <<i - 1, s[i]>>]
Back(s, n) == LET k == IF n <= 1 THEN Min2(1, Len(s)) ELSE Min2(n, Len(s)) IN [i \in 1..k |-> <<Len(s) - i, s[Len(s) - i + 1]>>]
Init == tr \in 1..NT /\ l = 1 /\ q = <<>>
Step(e) ==
  \/ e.e = "push" /\ q' = Bound(q \o [i \in 1..e.n |-> e.v + i - 1])
  \/ e.e = "pop" /\ q' = IF e.n >= Len(q) THEN <<>> ELSE SubSeq(q, e.n + 1, Len(q))
  \/ e.e = "qreset" /\ q' = <<>>
  \/ e.e = "walkn" /\ e.a = Walk(q, e.n) /\ e.b = Back(q, e.n) /\ q' = q
  \/ e.e = "q" /\ q' = q /\ e.n = Len(q) /\ e.em = (q = <<>>) /\ e.ix
     /\ e.free = e.cap - e.n /\ (IF Cap = 0 THEN e.cap >= e.n ELSE e.cap = Cap)
     /\ (q # <<>> => e.f = q[1] /\ e.l = q[Len(q)])
     /\ e.a = q /\ e.g = q /\ e.b = Reverse(q)
  \/ e.e = "fin" /\ q' = q
Next == /\ l <= Len(Traces[tr].ev) /\ l' = l + 1 /\ tr' = tr /\ Step(Traces[tr].ev[l])
Progress == Reached(tr, l)
===========================================================================
