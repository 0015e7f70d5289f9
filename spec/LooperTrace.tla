---------------------------- MODULE LooperTrace ----------------------------
(* The event loop.  A registration (numbered k by the recording) owns an   *)
(* id, a descriptor, a parameter and two directions, each enabled or not.  *)
(* A poll reports readiness; a callback may only run for a registration    *)
(* that exists, is enabled in that direction and was reported ready by the *)
(* latest poll; the loop may not sleep on anything ready and enabled.      *)
EXTENDS TraceBase
VARIABLES tr, l, ins, pend, snap, recent, stop, stopped, incb, mode
vars == <<tr, l, ins, pend, snap, recent, stop, stopped, incb, mode>>
Threads == 0..9
Idle == [op |-> "none", k |-> 0, st |-> "idle", v |-> TRUE]
PatienceRounds == 5
Init == /\ tr \in 1..NT /\ l = 1 /\ ins = <<>> /\ pend = [t \in Threads |-> Idle] /\ snap = {} /\ recent = {}
        /\ stop = "no" /\ stopped = FALSE /\ incb = 0 - 1 /\ mode = "out"
Ks == DOMAIN ins
Live == {k \in Ks : ins[k].alive}
On(k, d) == IF d = "r" THEN ins[k].r ELSE ins[k].w
Dirs == {"r", "w"}
SetOf(s) == {s[i] : i \in 1..Len(s)}
ReadySet(e) == {<<k, "r">> : k \in SetOf(e.rd)} \cup {<<k, "w">> : k \in SetOf(e.wr)}
(* nothing ready and enabled is left waiting, no running timer is overdue *)
NothingWaiting(e) ==
  /\ \A k \in Live : \A d \in Dirs : ~(On(k, d) /\ <<k, d>> \in ReadySet(e))
  /\ \A k \in Live : ins[k].tm /\ ins[k].r => e.now <= ins[k].base + ins[k].per + 1
Age(R, k, d) == IF k \in Live /\ On(k, d) /\ <<k, d>> \in R THEN (IF d = "r" THEN ins[k].ar ELSE ins[k].aw) + 1 ELSE 0
Kind(k, s) == IF s = "t" THEN ins[k].tm ELSE ~ins[k].tm
DirOf(s) == IF s = "w" THEN "w" ELSE "r"
Step(e) ==
  \/ /\ e.e = "reg" /\ e.k \notin Ks /\ \A k \in Live : ins[k].id # e.id
     /\ ins' = (e.k :> [alive |-> TRUE, id |-> e.id, fd |-> e.fd, prm |-> e.prm, r |-> e.r, w |-> e.w, tm |-> e.tm, per |-> e.per,
                        t0 |-> e.t0, base |-> e.t1, cnt |-> 0, ar |-> 0, aw |-> 0]) @@ ins
     /\ UNCHANGED <<pend, snap, recent, stop, stopped, incb, mode>>
  (* the kernel had no descriptor for the timer: no registration *)
  \/ e.e = "tfail" /\ e.inv /\ UNCHANGED <<ins, pend, snap, recent, stop, stopped, incb, mode>>
  \/ /\ e.e = "del" /\ e.k \in Live /\ ins' = [ins EXCEPT ![e.k].alive = FALSE] /\ UNCHANGED <<pend, snap, recent, stop, stopped, incb, mode>>
  \/ /\ e.e = "inv" /\ pend[e.t].op = "none" /\ e.k \in Live /\ pend' = [pend EXCEPT ![e.t] = [op |-> e.op, k |-> e.k, st |-> "inv", v |-> TRUE]]
     /\ UNCHANGED <<ins, snap, recent, stop, stopped, incb, mode>>
  \/ /\ e.e = "res" /\ pend[e.t].st = "done" /\ pend[e.t].v = e.r /\ pend' = [pend EXCEPT ![e.t] = Idle]
     /\ ins' = [ins EXCEPT ![pend[e.t].k].base = IF pend[e.t].op = "enR" THEN Max2(@, e.now) ELSE @]
     /\ UNCHANGED <<snap, recent, stop, stopped, incb, mode>>
  \/ /\ e.e \in {"loop", "step"} /\ mode = "out" /\ mode' = e.e /\ stopped' = (stop = "yes") /\ snap' = {} /\ recent' = {}
     /\ UNCHANGED <<ins, pend, stop, incb>>
  \/ /\ e.e = "poll" /\ mode # "out" /\ incb < 0 /\ snap' = {x \in ReadySet(e) : x[1] \in Live} /\ recent' = {} /\ stopped' = (stop = "yes")
     /\ ins' = [k \in Ks |-> [ins[k] EXCEPT !.ar = Age(ReadySet(e), k, "r"), !.aw = Age(ReadySet(e), k, "w")]]
     (* no starvation *)
     /\ \A k \in Live : ins'[k].ar < PatienceRounds /\ ins'[k].aw < PatienceRounds
     /\ UNCHANGED <<pend, stop, incb, mode>>
  \/ /\ e.e = "block" /\ mode = "loop" /\ incb < 0 /\ (stop # "yes" \/ ~stopped) /\ NothingWaiting(e) /\ UNCHANGED <<ins, pend, snap, recent, stop, stopped, incb, mode>>
  \/ /\ e.e = "quiesce" /\ (mode = "loop" /\ incb < 0 => stop # "no" \/ NothingWaiting(e)) /\ UNCHANGED <<ins, pend, snap, recent, stop, stopped, incb, mode>>
  \/ /\ e.e = "cb" /\ mode # "out" /\ incb < 0 /\ ~stopped /\ e.k \in Live
     /\ LET k == e.k  d == DirOf(e.kind) IN
        /\ Kind(k, e.kind) /\ ins[k].id = e.id /\ ins[k].prm = e.prm
        /\ (~ins[k].tm => e.fd = ins[k].fd /\ e.ev = (IF d = "r" THEN 1 ELSE 2))
        /\ <<k, d>> \in snap
        /\ (On(k, d) \/ <<k, d>> \in recent)
        /\ (ins[k].tm => (ins[k].cnt + 1) * ins[k].per <= e.now - ins[k].t0)
        /\ ins' = [ins EXCEPT ![k].cnt = @ + 1, ![k].base = Max2(@, e.now), ![k].ar = IF d = "r" THEN 0 ELSE @, ![k].aw = IF d = "w" THEN 0 ELSE @]
        /\ snap' = snap \ {<<k, d>>} /\ incb' = k
     /\ UNCHANGED <<pend, recent, stop, stopped, mode>>
  \/ /\ e.e = "cbend" /\ incb = e.k /\ e.ok /\ incb' = 0 - 1 /\ recent' = {} /\ stopped' = (stop = "yes") /\ UNCHANGED <<ins, pend, snap, stop, mode>>
  \/ /\ e.e = "looped" /\ mode = "loop" /\ incb < 0 /\ stop # "no" /\ e.q /\ mode' = "out" /\ UNCHANGED <<ins, pend, snap, recent, stop, stopped, incb>>
  \/ /\ e.e = "stepped" /\ mode = "step" /\ incb < 0 /\ mode' = "out" /\ UNCHANGED <<ins, pend, snap, recent, stop, stopped, incb>>
  \/ /\ e.e = "stop" /\ stop' = (IF stop = "yes" THEN "yes" ELSE "asked") /\ UNCHANGED <<ins, pend, snap, recent, stopped, incb, mode>>
  \/ /\ e.e = "stopped" /\ e.q /\ stop' = "yes" /\ UNCHANGED <<ins, pend, snap, recent, stopped, incb, mode>>
  \/ /\ e.e = "qp" /\ e.r /\ UNCHANGED <<ins, pend, snap, recent, stop, stopped, incb, mode>>
  \/ /\ e.e = "closed" /\ e.fds = 0 /\ UNCHANGED <<ins, pend, snap, recent, stop, stopped, incb, mode>>
  \/ /\ e.e \in {"env", "fin"} /\ UNCHANGED <<ins, pend, snap, recent, stop, stopped, incb, mode>>
Act == /\ l <= Len(Traces[tr].ev) /\ l' = l + 1 /\ tr' = tr /\ Step(Traces[tr].ev[l])
(* an enable, disable or query takes effect at one instant of its call; a disable which  *)
(* another thread completed since the loop last looked does not stop a callback under way *)
Off(t, k, D) == recent' = (IF t = 0 THEN recent ELSE recent \cup {<<k, d>> : d \in {d \in D : On(k, d)}})
Tau == /\ l <= Len(Traces[tr].ev) /\ Traces[tr].ev[l].e \in {"res", "block", "cb", "quiesce", "poll"} /\ UNCHANGED <<tr, l, snap, stop, stopped, incb, mode>>
       /\ \E t \in Threads : LET p == pend[t]  k == p.k  D(v) == pend' = [pend EXCEPT ![t].st = "done", ![t].v = v] IN p.st = "inv" /\
          \/ p.op = "enR" /\ ins' = [ins EXCEPT ![k].r = TRUE] /\ D(TRUE) /\ recent' = recent
          \/ p.op = "enW" /\ ins' = [ins EXCEPT ![k].w = TRUE] /\ D(TRUE) /\ recent' = recent
          \/ p.op = "disR" /\ ins' = [ins EXCEPT ![k].r = FALSE, ![k].ar = 0] /\ D(TRUE) /\ Off(t, k, {"r"})
          \/ p.op = "disW" /\ ins' = [ins EXCEPT ![k].w = FALSE, ![k].aw = 0] /\ D(TRUE) /\ Off(t, k, {"w"})
          \/ p.op = "disA" /\ ins' = [ins EXCEPT ![k].r = FALSE, ![k].w = FALSE, ![k].ar = 0, ![k].aw = 0] /\ D(TRUE) /\ Off(t, k, Dirs)
          \/ p.op = "isR" /\ ins' = ins /\ D(ins[k].r) /\ recent' = recent
          \/ p.op = "isW" /\ ins' = ins /\ D(ins[k].w) /\ recent' = recent
Next == Act \/ Tau
Progress == Reached(tr, l)
============================================================================
