----------------------------- MODULE PipeTrace -----------------------------
(* A bounded non-blocking byte channel.  Transfers take effect at one      *)
(* instant between the start and the end of the call.                      *)
EXTENDS TraceBase, Runs
VARIABLES tr, l, c, w, r
Cap == Traces[tr].cfg.cap
Idle == [st |-> "idle", b |-> 0, n |-> 0, r |-> 0, d |-> <<>>]
Init == tr \in 1..NT /\ l = 1 /\ c = <<>> /\ w = Idle /\ r = Idle
Atomic == 4096        \* at most this much goes in entirely or not at all (a kernel guarantee of pipes)
Sock == Traces[tr].cfg.sock
Step(e) ==
  \/ e.e = "opened" /\ w.st = "idle" /\ e.ok /\ e.fds = 2 /\ e.nb /\ e.ce /\ UNCHANGED <<c, w, r>>
  \* a construction may fail only when the system refused a socket or a setting, and leaves nothing open then
  \/ e.e \in {"sfail", "ffail"} /\ w' = [w EXCEPT !.st = "fault"] /\ UNCHANGED <<c, r>>
  \/ e.e = "nopipe" /\ w.st = "fault" /\ e.fds = 0 /\ e.inv /\ UNCHANGED <<c, w, r>>
  \/ e.e = "closed" /\ e.fds = 0 /\ UNCHANGED <<c, w, r>>
  \/ e.e = "winv" /\ w.st = "idle" /\ w' = [Idle EXCEPT !.st = "inv", !.b = e.b, !.n = e.n] /\ UNCHANGED <<c, r>>
  \/ e.e = "wres" /\ w.st = "done" /\ w.r = e.r /\ (e.again = (e.r < 0)) /\ w' = Idle /\ UNCHANGED <<c, r>>
  \/ e.e = "rinv" /\ r.st = "idle" /\ r' = [Idle EXCEPT !.st = "inv", !.n = e.n] /\ UNCHANGED <<c, w>>
  \/ e.e = "rres" /\ r.st = "done" /\ r.r = e.r /\ (e.again = (e.r < 0)) /\ e.g /\ e.d = r.d /\ r' = Idle /\ UNCHANGED <<c, w>>
  \/ e.e = "fin" /\ UNCHANGED <<c, w, r>>
Act == /\ l <= Len(Traces[tr].ev) /\ l' = l + 1 /\ tr' = tr /\ Step(Traces[tr].ev[l])
Room == Cap - RLen(c)
Tau == /\ l <= Len(Traces[tr].ev) /\ Traces[tr].ev[l].e \in {"wres", "rres"} /\ UNCHANGED <<tr, l>>
       /\ \/ w.st = "inv" /\ r' = r
             /\ LET k == IF Room = 0 \/ (~Sock /\ w.n <= Atomic /\ Room < w.n) THEN 0 ELSE Min2(Room, w.n)
                IN IF k = 0 THEN w' = [w EXCEPT !.st = "done", !.r = 0 - 1] /\ c' = c
                   ELSE w' = [w EXCEPT !.st = "done", !.r = k] /\ c' = RAppend(c, w.b, k)
          \/ r.st = "inv" /\ w' = w
             /\ LET k == Min2(r.n, RLen(c))
                IN IF k = 0 THEN r' = [r EXCEPT !.st = "done", !.r = 0 - 1] /\ c' = c
                   ELSE r' = [r EXCEPT !.st = "done", !.r = k, !.d = RTake(c, k)] /\ c' = RDrop(c, k)
Next == Act \/ Tau
Progress == Reached(tr, l)
============================================================================
