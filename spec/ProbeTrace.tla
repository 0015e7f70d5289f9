---------------------------- MODULE ProbeTrace ----------------------------
(* socket_api::check_connect: tells whether a connection to the address    *)
(* could be established within the time given, takes no longer than that,  *)
(* and leaves nothing open.  "nc"/"nd" are the kernel's events: a connect  *)
(* begun, and its outcome.                                                 *)
EXTENDS TraceBase
VARIABLES tr, l, call
Threads == 0..9
Slack == 1000                  \* microseconds
Idle == [tid |-> -1, tmo |-> 0, us |-> -1, nc |-> 0, done |-> FALSE, res |-> 0, at |-> 0, fault |-> FALSE, est |-> 0]
Init == tr \in 1..NT /\ l = 1 /\ call = [t \in Threads |-> Idle]
Clock == Traces[tr].cfg.clock
Deadline(c) == c.us + c.tmo * 1000
Answer(c, r, us) ==
  LET ok == c.done /\ c.res = 0 IN
  /\ r => ok
  /\ r \/ \/ c.fault                                     \* no socket could be set up
          \/ c.done /\ c.res # 0
          \/ c.tmo >= 0 /\ us >= Deadline(c) - 1         \* gave up, not before the time was over
             /\ (~c.done \/ c.at >= Deadline(c) - 1 \/ Clock)
  /\ c.nc = (IF c.fault THEN 0 ELSE 1)                   \* one connect attempt per call
  \* it returns as soon as the outcome is known, at the latest when the time is over
  /\ Clock \/ us <= (IF c.fault THEN c.us ELSE IF c.done THEN (IF c.tmo >= 0 THEN Min2(c.at, Deadline(c)) ELSE c.at) ELSE Deadline(c)) + Slack
Step(e) ==
  \/ e.e = "inv" /\ call[e.t].us < 0 /\ call' = [call EXCEPT ![e.t] = [Idle EXCEPT !.tid = e.tid, !.tmo = e.tmo, !.us = e.us, !.est = call[e.t].est]]
  \/ e.e = "nc" /\ call[e.k].us >= 0 /\ call' = [call EXCEPT ![e.k].nc = @ + 1, ![e.k].done = e.res # 0, ![e.k].res = e.res, ![e.k].at = e.us]
  \/ e.e = "nd" /\ call[e.k].us >= 0 /\ call' = [call EXCEPT ![e.k].done = TRUE, ![e.k].res = e.res, ![e.k].at = e.us, ![e.k].est = @ + (IF e.res = 0 THEN 1 ELSE 0)]
  \/ e.e \in {"sfail", "ffail"} /\ call' = [t \in Threads |-> IF call[t].us >= 0 /\ call[t].tid = e.t THEN [call[t] EXCEPT !.fault = TRUE] ELSE call[t]]
  \/ e.e = "res" /\ LET c == call[e.t] IN c.us >= 0 /\ Answer(c, e.r, e.us) /\ call' = [call EXCEPT ![e.t].us = -1]
  \/ e.e = "fds" /\ e.n = 0 /\ call' = call
  \/ e.e = "peer" /\ e.eof /\ call[e.t].est > 0 /\ call' = [call EXCEPT ![e.t].est = @ - 1]
  \/ e.e = "fin" /\ call' = call
Next == /\ l <= Len(Traces[tr].ev) /\ l' = l + 1 /\ tr' = tr /\ Step(Traces[tr].ev[l])
Progress == Reached(tr, l)
============================================================================
