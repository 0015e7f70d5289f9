---------------------------- MODULE WorkerTrace ----------------------------
(* A worker thread with its mailbox: start callback once, on the worker,   *)
(* before any message; every sender's messages in order, exactly once,     *)
(* unaltered; nothing pending when everything rests; nothing after join.   *)
EXTENDS TraceBase
VARIABLES tr, l, box, st, on, stop, busy, wthread
Senders == 0..9
C == Traces[tr].cfg
(* st: new, starting, running, joining, joined;   on: no, in, yes, refused *)
Init == tr \in 1..NT /\ l = 1 /\ box = [s \in Senders |-> <<>>] /\ st = "new" /\ on = (IF C.start THEN "no" ELSE "yes") /\ stop = "no" /\ busy = FALSE /\ wthread = 0 - 1
Sender(id) == id \div 1000
Same(m, e) == m[1] = e.id /\ m[3] = e.n /\ e.d = (IF m[3] = 0 THEN <<>> ELSE <<<<m[2], m[3]>>>>)
OnWorker(e) == wthread < 0 \/ wthread = e.t
Step(e) ==
  \/ e.e = "start" /\ st = "new" /\ st' = "starting" /\ UNCHANGED <<box, on, stop, busy, wthread>>
  \/ e.e = "running" /\ st = "starting" /\ st' = "running" /\ (e.lp \/ on = "refused") /\ e.run /\ e.name = "the worker" /\ UNCHANGED <<box, on, stop, busy, wthread>>
  (* the start callback: once, on the worker thread, before any message *)
  \/ e.e = "onstart" /\ st \in {"starting", "running", "joining"} /\ on = "no" /\ on' = "in" /\ e.here /\ e.name = "the worker" /\ e.t # 0 /\ wthread' = e.t /\ UNCHANGED <<box, st, stop, busy>>
  \/ e.e = "started" /\ on = "in" /\ e.t = wthread /\ on' = (IF e.r THEN "yes" ELSE "refused") /\ UNCHANGED <<box, st, stop, busy, wthread>>
  \/ e.e = "send" /\ box' = [box EXCEPT ![e.s] = @ \o e.m] /\ UNCHANGED <<st, on, stop, busy, wthread>>
  \/ e.e = "sent" /\ UNCHANGED <<box, st, on, stop, busy, wthread>>
  \/ e.e = "msg" /\ st \in {"starting", "running", "joining"} /\ on = "yes" /\ ~busy /\ e.here /\ e.t # 0 /\ OnWorker(e) /\ wthread' = e.t
     /\ LET s == Sender(e.id) IN s \in Senders /\ box[s] # <<>> /\ Same(Head(box[s]), e) /\ box' = [box EXCEPT ![s] = Tail(@)]
     /\ busy' = TRUE /\ UNCHANGED <<st, on, stop>>
  \/ e.e = "msgend" /\ busy /\ e.t = wthread /\ busy' = FALSE /\ UNCHANGED <<box, st, on, stop, wthread>>
  \/ e.e = "wstop" /\ stop' = (IF stop = "yes" THEN "yes" ELSE "asked") /\ UNCHANGED <<box, st, on, busy, wthread>>
  \/ e.e = "wstopped" /\ stop' = "yes" /\ UNCHANGED <<box, st, on, busy, wthread>>
  (* everything rests: nothing accepted is left undelivered *)
  \/ e.e = "quiet" /\ ~busy /\ st = "running" /\ (on = "refused" \/ stop # "no" \/ (on = "yes" /\ \A s \in Senders : box[s] = <<>>)) /\ UNCHANGED <<box, st, on, stop, busy, wthread>>
  \/ e.e = "join" /\ st' = (IF st = "joined" THEN "joined" ELSE "joining") /\ UNCHANGED <<box, on, stop, busy, wthread>>
  (* the thread ends, but only when it was asked to or refused to start *)
  \/ e.e = "joined" /\ ~busy /\ ~e.run /\ (st = "joined" \/ stop # "no" \/ on = "refused") /\ st' = "joined" /\ UNCHANGED <<box, on, stop, busy, wthread>>
  \/ e.e = "flood" /\ e.bad = 0 /\ e.got = e.n /\ UNCHANGED <<box, st, on, stop, busy, wthread>>
  \/ e.e = "closed" /\ e.fds = 0 /\ UNCHANGED <<box, st, on, stop, busy, wthread>>
  \/ e.e = "fin" /\ UNCHANGED <<box, st, on, stop, busy, wthread>>
Next == /\ l <= Len(Traces[tr].ev) /\ l' = l + 1 /\ tr' = tr /\ Step(Traces[tr].ev[l])
Progress == Reached(tr, l)
============================================================================
