--------------------------- MODULE LFQueueTrace ---------------------------
EXTENDS TraceBase, LFQueue
VARIABLES tr, l, q, pend
Q == Traces[tr].cfg.q
Threads == 0..9
Idle == [op |-> NoOp, v |-> 0, st |-> "idle"]
Init == tr \in 1..NT /\ l = 1 /\ q = <<>> /\ pend = [t \in Threads |-> Idle]
Quiet == \A t \in Threads : pend[t].op = NoOp
Step(e) ==
  \/ e.e = "inv" /\ pend[e.t].op = NoOp /\ pend' = [pend EXCEPT ![e.t] = [op |-> e.op, v |-> e.v, st |-> "inv"]] /\ q' = q
  \/ e.e = "res" /\ pend[e.t].op # NoOp /\ Responds(pend[e.t], e.r, e.v) /\ pend' = [pend EXCEPT ![e.t] = Idle] /\ q' = q
  \/ e.e = "size" /\ Quiet /\ e.n = Len(q) /\ UNCHANGED <<q, pend>>
  \/ e.e = "fin" /\ Quiet /\ UNCHANGED <<q, pend>>
Act == /\ l <= Len(Traces[tr].ev) /\ l' = l + 1 /\ tr' = tr /\ Step(Traces[tr].ev[l])
(* an internal step is only useful just before some response *)
Tau == /\ l <= Len(Traces[tr].ev) /\ Traces[tr].ev[l].e = "res"
       /\ \E t \in Threads : \E x \in Internal(q, pend, t, Q) : q' = x[1] /\ pend' = x[2]
       /\ UNCHANGED <<tr, l>>
Next == Act \/ Tau
Progress == Reached(tr, l)
===========================================================================
