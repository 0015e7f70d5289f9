---------------------------- MODULE ThreadTrace ----------------------------
(* Threads created, running, returned, joined.                             *)
EXTENDS TraceBase
VARIABLES tr, l, th, quiet, joining
(* th[k]: [st, id, p, name, det, nullf] *)
K == 0..7
New == [st |-> "none", id |-> 0, rid |-> 0, p |-> 0, name |-> "", det |-> FALSE, cap |-> 0, known |-> FALSE]
Init == tr \in 1..NT /\ l = 1 /\ th = [k \in K |-> New] /\ quiet = {} /\ joining = [k |-> 99, us |-> 0, ms |-> 0]
Keep == UNCHANGED <<quiet, joining>>
(* ids of threads that are certainly still alive; the system may reuse the others *)
Alive(k) == {j \in K \ {k} : th[j].st = "run" \/ j = 7}
Ids(k) == {th[j].id : j \in Alive(k)} \cup {th[j].rid : j \in Alive(k)}
Step(e) ==
  \/ e.e = "main" /\ th' = [th EXCEPT ![7] = [New EXCEPT !.id = e.id]] /\ Keep
  \/ e.e = "create" /\ th[e.k].st = "none"
     /\ th' = [th EXCEPT ![e.k] = [New EXCEPT !.st = IF e.nullf THEN "ret" ELSE "new", !.p = e.p, !.name = e.name, !.det = e.det, !.cap = e.cap]] /\ Keep
  (* the creator learns the id the thread runs under; it is nobody else's *)
  \/ e.e = "created" /\ th[e.k].st # "none"
     /\ (~th[e.k].det => (th[e.k].rid # 0 => th[e.k].rid = e.id) /\ e.id \notin (Ids(e.k) \ {0}))
     /\ th' = [th EXCEPT ![e.k].id = e.id] /\ Keep
  (* runs once, under its name and id, with its parameter and its own copy of the function *)
  \/ e.e = "run" /\ th[e.k].st = "new" /\ e.p = th[e.k].p /\ e.name = th[e.k].name /\ e.id = e.real /\ e.cap = th[e.k].cap
     /\ (th[e.k].id # 0 => e.id = th[e.k].id) /\ e.id \notin (Ids(e.k) \ {0})
     /\ th' = [th EXCEPT ![e.k].st = "run", ![e.k].rid = e.id] /\ Keep
  \/ e.e = "ret" /\ th[e.k].st = "run" /\ e.id = th[e.k].rid /\ e.name = th[e.k].name
     /\ th' = [th EXCEPT ![e.k].st = "ret"] /\ Keep
  \/ e.e = "settled" /\ quiet' = {k \in K : th[k].st = "ret"} /\ UNCHANGED <<th, joining>>
  \/ e.e = "join" /\ joining' = [k |-> e.k, us |-> e.us, ms |-> e.ms, q |-> e.k \in quiet] /\ UNCHANGED <<th, quiet>>
  \/ e.e = "joined" /\ e.k = joining.k /\ quiet' = quiet /\ joining' = joining
     /\ IF e.r THEN th[e.k].st = "ret" /\ th' = [th EXCEPT ![e.k].st = "joined"]
        ELSE joining.ms >= 0 /\ e.us >= joining.us + joining.ms * 1000 - 1 /\ ~joining.q /\ th' = th
  \/ e.e = "quiet" /\ (\A k \in K : th[k].det => th[k].st = "ret")
     /\ th' = th /\ Keep
  \/ e.e = "fin" /\ th' = th /\ Keep
Next == /\ l <= Len(Traces[tr].ev) /\ l' = l + 1 /\ tr' = tr /\ Step(Traces[tr].ev[l])
Progress == Reached(tr, l)
============================================================================
