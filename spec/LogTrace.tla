----------------------------- MODULE LogTrace -----------------------------
(* The disk log: every call takes effect at one instant; a message at or   *)
(* above the threshold is the next line of the file current at that        *)
(* instant.  C.files[f] is what the files hold at the end (the default     *)
(* file is 0), as lines <<level, thread name, id, length, text intact>>,   *)
(* pos[f] how much of it is explained.                                     *)
EXTENDS TraceBase
VARIABLES tr, l, cur, thr, pos, pend
C == Traces[tr].cfg
Threads == 0..9
Idle == [k |-> "idle"]
Init == /\ tr \in 1..NT /\ l = 1 /\ cur = 0 /\ thr = 1 /\ pos = [f \in 0..4 |-> 0] /\ pend = [t \in Threads |-> Idle]
Ev0 == Traces[tr].ev[l]
Begin(e, p) == pend[e.t].k = "idle" /\ pend' = [pend EXCEPT ![e.t] = p] /\ UNCHANGED <<cur, thr, pos>>
Finish(e) == pend[e.t].k = "done" /\ pend' = [pend EXCEPT ![e.t] = Idle] /\ UNCHANGED <<cur, thr, pos>>
Step(e) ==
  \/ e.e = "log" /\ Begin(e, [k |-> "log", s |-> e.s, id |-> e.id, lv |-> e.lv, n |-> e.n, lost |-> FALSE])
  \/ e.e = "thr" /\ Begin(e, [k |-> "thr", v |-> e.v])
  \/ e.e = "file" /\ Begin(e, [k |-> "file", f |-> e.f])
  \/ e.e \in {"logd", "thrd"} /\ Finish(e)
  \/ e.e = "filed" /\ e.ok /\ Finish(e)
  \/ e.e = "badfile" /\ ~e.ok /\ UNCHANGED <<cur, thr, pos, pend>>
  (* the file could not be opened for this message *)
  \/ e.e = "ofail" /\ pend[e.t].k = "log" /\ pend' = [pend EXCEPT ![e.t].lost = TRUE] /\ UNCHANGED <<cur, thr, pos>>
  \/ e.e = "name" /\ e.f = cur /\ UNCHANGED <<cur, thr, pos, pend>>
  \/ e.e = "fin" /\ (\A f \in 0..4 : pos[f] = Len(C.files[f + 1])) /\ UNCHANGED <<cur, thr, pos, pend>>
Act == /\ l <= Len(Traces[tr].ev) /\ l' = l + 1 /\ tr' = tr /\ Step(Ev0)
Done(t) == pend' = [pend EXCEPT ![t] = [k |-> "done"]]
Takes(t) == LET p == pend[t] IN
  CASE p.k = "thr" -> thr' = p.v /\ Done(t) /\ UNCHANGED <<cur, pos>>
    [] p.k = "file" -> cur' = p.f /\ Done(t) /\ UNCHANGED <<thr, pos>>
    [] p.k = "log" ->
         \/ p.lv < thr /\ Done(t) /\ UNCHANGED <<cur, thr, pos>>
         \/ p.lv >= thr /\ p.lost /\ Done(t) /\ UNCHANGED <<cur, thr, pos>>
         \/ /\ p.lv >= thr /\ pos[cur] < Len(C.files[cur + 1]) /\ C.files[cur + 1][pos[cur] + 1] = <<p.lv, p.s, p.id, p.n, 1>>
            /\ pos' = [pos EXCEPT ![cur] = @ + 1] /\ Done(t) /\ UNCHANGED <<cur, thr>>
    [] OTHER -> FALSE
(* effects are taken as late as possible: when some call returns without having had one *)
Tau == /\ l <= Len(Traces[tr].ev) /\ UNCHANGED <<tr, l>> /\ Ev0.e \in {"logd", "thrd", "filed"} /\ pend[Ev0.t].k \notin {"done", "idle"} /\ \E t \in Threads : Takes(t)
Next == Act \/ Tau
Progress == Reached(tr, l)
============================================================================
