----------------------------- MODULE ConnTrace -----------------------------
(* One TcpConnection on its own loop, its peer, and senders on any thread. *)
EXTENDS Conn
VARIABLES tr, l
C == Traces[tr].cfg
Init == tr \in 1..NT /\ l = 1 /\ conns = (0 :> NewConn) /\ pend = [t \in Threads |-> Idle]
Step(e) ==
  \/ ConnStep(e)
  \/ UNCHANGED pend /\
     \/ e.e = "new" /\ e.st = 1 /\ e.id = 7 /\ e.nb /\ e.pport = e.xport /\ e.lport = e.ylport /\ conns' = [conns EXCEPT ![0].th = e.t, ![0].id = 7]
     \/ e.e = "poll" /\ PollStep
     \/ e.e = "quiesce" /\ NoPending /\ Settled(conns[0], e.drained, C.sc) /\ UNCHANGED conns
     \/ e.e = "closed" /\ e.fds = 0 /\ conns[0].ph = "closed" /\ conns[0].fdc = 1 /\ UNCHANGED conns
     \/ e.e = "fin" /\ UNCHANGED conns
Act == /\ l <= Len(Traces[tr].ev) /\ l' = l + 1 /\ tr' = tr /\ Step(Traces[tr].ev[l])
Tau == /\ l <= Len(Traces[tr].ev) /\ UNCHANGED <<tr, l>> /\ ConnTau(Traces[tr].ev[l])
Next == Act \/ Tau
Progress == Reached(tr, l)
============================================================================
