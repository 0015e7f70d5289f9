------------------------------- MODULE Conn -------------------------------
(* The life of connections as the two ends see it.  Each connection c has  *)
(* the bytes accepted by send and not yet received by the peer (wire), the *)
(* bytes sent by the peer and not yet taken by the program (inn), a phase  *)
(* (open, closed) and what has been done to end it: shut (no, may = asked  *)
(* for asynchronously, in = inside the call, done) and brk (the peer ended *)
(* it: no, fin, rst).  A send is accepted or dropped at one instant of its *)
(* call; dropping needs a reason.                                          *)
EXTENDS TraceBase, Runs
VARIABLES conns, pend
Threads == 0..30
Idle == [st |-> "idle", c |-> 0 - 1, b |-> 0, n |-> 0, end |-> 0]
NewConn == [ph |-> "open", shut |-> "no", brk |-> "no", lossy |-> FALSE, wire |-> <<>>, wn |-> 0, rcv |-> 0, inn |-> <<>>, innN |-> 0, got |-> 0, seen |-> 0,
            due |-> FALSE, retEnd |-> 0, pollEnd |-> 0, eof |-> FALSE, fdc |-> 0, th |-> 0 - 1, id |-> 0 - 1]
ConnKeys == DOMAIN conns
(* total number of bytes accepted so far *)
Total(c) == c.rcv + c.wn
Set(k, c) == conns' = [conns EXCEPT ![k] = c]
MayAccept(c) == c.ph = "open" /\ ~c.eof /\ c.shut # "done"
MayDrop(c) == IF c.ph = "closed" THEN TRUE ELSE c.shut # "no" \/ c.brk # "no"
CallbackOk(c, e) == c.ph = "open" /\ (IF c.th < 0 THEN TRUE ELSE c.th = e.t) /\ (IF Has(e, "id") /\ c.id >= 0 THEN c.id = e.id ELSE TRUE)
(* every byte the peer sent has to be handed over before the close is reported, unless this side ended the connection or the kernel broke it *)
AllSeen(c) == c.seen = c.innN
ConnEvents == {"send", "sent", "recv", "peof", "perr", "psend", "pclose", "pshut", "preset", "shut", "shutd", "msg", "sendc", "close", "gsi", "gs", "stats", "fdclose", "cbend"}
SendStep(e) ==
  \/ e.e = "send" /\ pend[e.t].st = "idle" /\ pend' = [pend EXCEPT ![e.t] = [st |-> "inv", c |-> e.c, b |-> e.b, n |-> e.n, end |-> 0]] /\ UNCHANGED conns
  \/ /\ e.e = "sent" /\ pend[e.t].st \in {"acc", "drop"} /\ pend' = [pend EXCEPT ![e.t] = Idle]
     /\ conns' = IF pend[e.t].st = "acc" THEN [conns EXCEPT ![e.c].retEnd = Max2(@, pend[e.t].end)] ELSE conns
ConnStep(e) ==
  \/ SendStep(e)
  \/ /\ UNCHANGED pend /\ e.e \in ConnEvents /\ e.c \in ConnKeys /\ LET k == e.c  c == conns[k] IN (
         \/ e.e = "recv" /\ ~c.eof /\ e.n <= c.wn /\ RTake(c.wire, e.n) = e.d /\ Set(k, [c EXCEPT !.wire = RDrop(@, e.n), !.wn = @ - e.n, !.rcv = @ + e.n])
     (* the peer sees the end of the stream: whole, unless it broke the connection itself *)
         \/ e.e = "peof" /\ (c.shut # "no" \/ c.brk # "no") /\ (c.brk = "no" => c.wn = 0) /\ Set(k, [c EXCEPT !.eof = TRUE])
     (* a close with bytes still unread on this side is reported as an error after the data *)
         \/ e.e = "perr" /\ (c.shut # "no" \/ c.brk # "no") /\ (c.brk = "no" => c.wn = 0 /\ c.innN > 0) /\ Set(k, [c EXCEPT !.eof = TRUE])
         \/ e.e = "psend" /\ Set(k, [c EXCEPT !.inn = RAppend(@, e.b, e.n), !.innN = @ + e.n])
         \/ e.e = "pclose" /\ Set(k, [c EXCEPT !.brk = IF e.un = 0 /\ @ # "rst" THEN "fin" ELSE "rst", !.lossy = @ \/ e.un > 0 \/ c.wn > 0 \/ \E t \in Threads : pend[t].st # "idle" /\ pend[t].c = k])
         \/ e.e = "pshut" /\ Set(k, [c EXCEPT !.brk = IF @ = "no" THEN "fin" ELSE @])
         \/ e.e = "preset" /\ Set(k, [c EXCEPT !.brk = "rst", !.lossy = TRUE])
         \/ e.e = "shut" /\ Set(k, [c EXCEPT !.shut = IF @ = "done" THEN "done" ELSE "in"])
         \/ e.e = "shutd" /\ Set(k, [c EXCEPT !.shut = "done"])
         \/ /\ e.e = "msg" /\ CallbackOk(c, e) /\ e.st \in {1, 2} /\ e.have + c.got > c.seen /\ e.have + c.got <= c.innN
            /\ e.took <= e.have /\ e.left = e.have - e.took /\ e.d = RTake(c.inn, e.took)
            /\ Set(k, [c EXCEPT !.seen = e.have + c.got, !.got = @ + e.took, !.inn = RDrop(@, e.took), !.th = e.t])
     (* completion: what was sent before the loop last looked is with the kernel *)
         \/ e.e = "sendc" /\ CallbackOk(c, e) /\ e.st \in {1, 2} /\ (e.k >= 0 /\ c.brk = "no" => e.k >= c.pollEnd) /\ Set(k, [c EXCEPT !.due = FALSE, !.th = e.t])
         \/ /\ e.e = "close" /\ CallbackOk(c, e) /\ e.st = 3 /\ (c.shut # "no" \/ c.brk # "no")
            /\ (c.shut = "no" /\ c.brk = "fin" /\ ~c.lossy => AllSeen(c))
            /\ Set(k, [c EXCEPT !.ph = "closed", !.th = e.t])
         \/ e.e = "gsi" /\ UNCHANGED conns
         \/ e.e = "gs" /\ e.v >= e.lo /\ (c.shut = "no" /\ c.brk = "no" => e.v = 1) /\ (c.ph = "closed" => e.v >= 2) /\ UNCHANGED conns
         \/ e.e = "stats" /\ (IF e.on THEN (c.brk = "no" /\ e.k >= 0 => e.w = e.k) /\ e.r = c.seen ELSE e.w = 0 /\ e.r = 0 /\ e.wc = 0 /\ e.rc = 0) /\ e.rmax <= Max2(1024, c.innN) /\ e.wmax <= Max2(1024, Total(c)) /\ UNCHANGED conns
         \/ e.e = "fdclose" /\ c.fdc = 0 /\ Set(k, [c EXCEPT !.fdc = 1])
         \/ e.e = "cbend" /\ UNCHANGED conns )
(* the loop has looked: sends that returned by now must be complete before the next completion report *)
PollStep == conns' = [k \in ConnKeys |-> [conns[k] EXCEPT !.pollEnd = conns[k].retEnd]]
Settled(c, drained, sc) ==
  IF c.ph = "closed" THEN TRUE
  ELSE /\ c.brk = "no" /\ (drained => c.shut \in {"no"}) /\ AllSeen(c)
       /\ (drained => c.wn = 0 /\ (sc => ~c.due))
NoPending == \A t \in Threads : pend[t].st = "idle"
AcceptBy(t, k) == LET p == pend[t]  c == conns[k] IN
  /\ p.st = "inv" /\ p.c = k /\ MayAccept(c)
  /\ Set(k, [c EXCEPT !.wire = RAppend(@, p.b, p.n), !.wn = @ + p.n, !.due = TRUE, !.lossy = @ \/ c.brk # "no"])
  /\ pend' = [pend EXCEPT ![t].st = "acc", ![t].end = Total(c) + p.n]
(* a pending send takes effect, as late as the recording allows: before its own return, before another one *)
(* that is about to return, before the connection ends or reports completion, or when the peer receives bytes which no accepted send explains               *)
ConnTau(e) ==
  IF e.e = "sent" THEN pend[e.t].st = "inv" /\ (
       \/ MayDrop(conns[e.c]) /\ pend' = [pend EXCEPT ![e.t].st = "drop"] /\ UNCHANGED conns
       \/ \E t \in Threads : AcceptBy(t, e.c))
  ELSE IF e.e \in {"shutd", "close", "sendc"} THEN \E t \in Threads : AcceptBy(t, e.c)
  ELSE IF e.e = "recv" THEN conns[e.c].wn < e.n /\ \E t \in Threads : AcceptBy(t, e.c)
  ELSE FALSE
===========================================================================
