----------------------------- MODULE SyncTrace -----------------------------
(* One auto-reset signal and one mutex.  Every call takes effect at one    *)
(* instant between its invocation and its response (unlock: the mutex may  *)
(* be taken by another thread from that instant on).                       *)
EXTENDS TraceBase
VARIABLES tr, l, lit, own, pend, busy
Threads == 0..9
NoOwner == 99
Idle == [op |-> "none", ms |-> 0, us |-> 0, st |-> "idle"]
SigOps == {"wait", "tw", "notify"}
MtxOps == {"lock", "try", "unlock"}
Init == tr \in 1..NT /\ l = 1 /\ lit = FALSE /\ own = NoOwner /\ pend = [t \in Threads |-> Idle]
        /\ busy = {}        \* polling calls during which another call on the same object was in progress
InProg(ops) == {t \in Threads : pend[t].op \in ops}
Clash(ops) == IF Cardinality(InProg(ops)) > 1 THEN InProg(ops) ELSE {}
Enabled(p) == \/ p.op = "wait" /\ lit
              \/ p.op \in {"notify", "unlock"}
              \/ p.op = "lock" /\ own = NoOwner
              \/ p.op \in {"tw", "try"}
Step(e) ==
  \/ e.e = "inv" /\ pend[e.t].op = "none" /\ pend' = [pend EXCEPT ![e.t] = [op |-> e.op, ms |-> e.ms, us |-> e.us, st |-> "inv"]]
     /\ busy' = (LET P == [pend EXCEPT ![e.t].op = e.op]
                    S == {t \in Threads : P[t].op \in SigOps}  M == {t \in Threads : P[t].op \in MtxOps}
                IN busy \cup (IF Cardinality(S) > 1 THEN S ELSE {}) \cup (IF Cardinality(M) > 1 THEN M ELSE {}))
     /\ UNCHANGED <<lit, own>>
  \/ e.e = "res" /\ LET p == pend[e.t] IN /\ p.op # "none"
       /\ \/ e.r /\ p.st = "yes"
          (* a timed call fails only when its time has passed, and only if it could not have
             succeeded at some instant; a polling call may also fail when it met another call *)
          \/ ~e.r /\ p.op \in {"tw", "try"} /\ (p.ms > 0 => e.us >= p.us + p.ms * 1000 - 1)
                  /\ (p.st = "no" \/ (p.ms = 0 /\ p.st = "inv" /\ e.t \in busy))
     /\ pend' = [pend EXCEPT ![e.t] = Idle] /\ busy' = busy \ {e.t} /\ UNCHANGED <<lit, own>>
  (* nobody can run any more: nothing that could proceed may be waiting *)
  \/ e.e = "deadlock" /\ (\A t \in Threads : pend[t].op = "none" \/ ~Enabled(pend[t]) ) /\ UNCHANGED <<lit, own, pend, busy>>
  \/ e.e = "fin" /\ UNCHANGED <<lit, own, pend, busy>>
Act == /\ l <= Len(Traces[tr].ev) /\ l' = l + 1 /\ tr' = tr /\ Step(Traces[tr].ev[l])
To(t, s) == pend' = [pend EXCEPT ![t].st = s]
Tau == /\ l <= Len(Traces[tr].ev) /\ Traces[tr].ev[l].e \in {"res", "deadlock"} /\ UNCHANGED <<tr, l, busy>>
       /\ \E t \in Threads : LET p == pend[t] IN p.st = "inv" /\
          \/ p.op \in {"wait", "tw"} /\ lit /\ lit' = FALSE /\ To(t, "yes") /\ own' = own
          \/ p.op = "tw" /\ ~lit /\ To(t, "no") /\ UNCHANGED <<lit, own>>
          \/ p.op = "notify" /\ lit' = TRUE /\ To(t, "yes") /\ own' = own
          \/ p.op \in {"lock", "try"} /\ own = NoOwner /\ own' = t /\ To(t, "yes") /\ lit' = lit
          \/ p.op = "try" /\ own # NoOwner /\ To(t, "no") /\ UNCHANGED <<lit, own>>
          \/ p.op = "unlock" /\ own = t /\ own' = NoOwner /\ To(t, "yes") /\ lit' = lit
Next == Act \/ Tau
Progress == Reached(tr, l)
============================================================================
