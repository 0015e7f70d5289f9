---------------------------- MODULE ServerTrace ----------------------------
(* A server, its clients and its users: binding, listening per port,       *)
(* hand-off of accepted connections to work threads in rotation, command   *)
(* mailboxes of the master (0) and the work threads (1..nw), stop, join.   *)
EXTENDS Conn
VARIABLES tr, l, srv, lis, thr, box, ids, rot, nacc, life, started
vars == <<conns, pend, srv, lis, thr, box, ids, rot, nacc, life, started>>
C == Traces[tr].cfg
Senders == 0..9
Dests == 0..C.nw
(* srv[k]: x port index, acc accept number, told; lis[x]: bound, starting, on, req, off; life: new, starting, run, stop, joined *)
Init == /\ tr \in 1..NT /\ l = 1 /\ conns = <<>> /\ pend = [t \in Threads |-> Idle] /\ srv = <<>> /\ lis = <<>> /\ thr = [d \in Dests |-> 0 - 1]
        /\ box = [d \in Dests |-> [s \in Senders |-> <<>>]] /\ ids = {} /\ rot = 0 - 1 /\ nacc = 0 /\ life = "new" /\ started = {}
Add(f, k, v) == [x \in (DOMAIN f) \cup {k} |-> IF x = k THEN v ELSE f[x]]
AllConns(P(_, _)) == conns' = [k \in ConnKeys |-> P(k, conns[k])]
ShutMay(c) == [c EXCEPT !.shut = IF @ = "no" THEN "may" ELSE @]
Told(k) == srv[k].told
Accepted(k) == srv[k].acc >= 0
NeedsTold == {"msg", "sendc", "close", "shut", "shutd", "send", "sent", "gs", "gsi", "stats", "shutreq"}
Keep(S) == S
Cmd(d, e) == LET m == Head(box[d][e.s]) IN m[1] = e.id /\ m[3] = e.n /\ e.b = (IF m[3] = 0 THEN <<>> ELSE <<<<m[2], m[3]>>>>)
Quiet(k, drained) == LET c == conns[k] IN
  IF ~Accepted(k) THEN lis[srv[k].x].st # "on"
  ELSE Told(k) /\ Settled(c, drained, C.sc)
Step(e) ==
  (* a connection still waiting to be accepted is cut when its port or the server closes *)
  CASE e.e \in {"perr", "peof"} /\ e.c \in ConnKeys /\ (e.c \in ConnKeys => ~Accepted(e.c)) ->
         conns[e.c].shut # "no" /\ conns' = [conns EXCEPT ![e.c].eof = TRUE] /\ UNCHANGED <<pend, srv, lis, thr, box, ids, rot, nacc, life, started>>
    [] e.e \in ConnEvents ->
         /\ (e.e \in NeedsTold => (IF e.c \in ConnKeys THEN Told(e.c) ELSE FALSE)) /\ ConnStep(e)
         /\ (e.e \in {"msg", "sendc", "close"} => life \in {"run", "stop", "starting"})
         /\ UNCHANGED <<srv, lis, thr, box, ids, rot, nacc, life, started>>
    [] e.e = "poll" -> conns' = [k \in ConnKeys |-> IF conns[k].th = e.t THEN [conns[k] EXCEPT !.pollEnd = conns[k].retEnd] ELSE conns[k]] /\ UNCHANGED <<pend, srv, lis, thr, box, ids, rot, nacc, life, started>>
    (* the system refuses a socket or a setting: the bind under way fails, and like every failing bind leaves nothing open *)
    [] e.e \in {"sfail", "ffail"} -> lis' = Append(lis, [port |-> 0 - 1, st |-> "fault"]) /\ UNCHANGED <<conns, pend, srv, thr, box, ids, rot, nacc, life, started>>
    [] e.e = "bind" ->
         LET n == Len(lis)  fault == IF n > 0 THEN lis[n].st = "fault" ELSE FALSE  bare == IF fault THEN SubSeq(lis, 1, n - 1) ELSE lis
         IN /\ e.ok = (~e.occ /\ ~fault) /\ e.fds = (IF e.ok THEN 1 ELSE 0)
            /\ lis' = (IF e.ok THEN Append(bare, [port |-> e.p, st |-> "bound"]) ELSE bare) /\ (e.ok => life = "new") /\ UNCHANGED <<conns, pend, srv, thr, box, ids, rot, nacc, life, started>>
    [] e.e = "gba" ->
         /\ IF e.x >= Len(lis) THEN e.p = 0 /\ UNCHANGED lis
            ELSE LET p == lis[e.x + 1] IN
              IF e.p = 0 THEN p.st \in {"req", "off"} /\ UNCHANGED lis
              ELSE /\ p.port \in {0, e.p} /\ e.ip = "127.0.0.1" /\ lis' = [lis EXCEPT ![e.x + 1].port = e.p]
                   /\ \A y \in 1..Len(lis) : y # e.x + 1 => lis[y].port # e.p
         /\ UNCHANGED <<conns, pend, srv, thr, box, ids, rot, nacc, life, started>>
    [] e.e = "start" -> life = "new" /\ life' = "starting" /\ lis' = [x \in 1..Len(lis) |-> [lis[x] EXCEPT !.st = "starting"]] /\ UNCHANGED <<conns, pend, srv, thr, box, ids, rot, nacc, started>>
    [] e.e = "started" -> e.ok = (e.n = C.nw) /\ life' = (IF e.ok /\ life = "starting" THEN "run" ELSE life) /\ UNCHANGED <<conns, pend, srv, lis, thr, box, ids, rot, nacc, started>>
    (* every thread starts once, on a thread of its own, before anything else happens on it *)
    [] e.e = "wstart" -> e.lp /\ e.d \in Dests /\ e.d \notin started /\ thr[e.d] < 0 /\ (\A d \in Dests : thr[d] # e.t) /\ e.t # 0 /\ life \in {"starting", "run", "stop"}
                         /\ thr' = [thr EXCEPT ![e.d] = e.t] /\ started' = started \cup {e.d} /\ UNCHANGED <<conns, pend, srv, lis, box, ids, rot, nacc, life>>
    [] e.e = "cconn" ->
         LET p == lis[e.x + 1] IN
         /\ IF e.ok THEN /\ p.st \in {"starting", "on", "req"} /\ e.c \notin ConnKeys
                         /\ conns' = Add(conns, e.c, IF p.st = "req" THEN [NewConn EXCEPT !.shut = "may"] ELSE NewConn)
                         /\ srv' = Add(srv, e.c, [x |-> e.x + 1, acc |-> 0 - 1, told |-> FALSE])
            ELSE p.st # "on" /\ UNCHANGED <<conns, srv>>
         /\ UNCHANGED <<pend, lis, thr, box, ids, rot, nacc, life, started>>
    [] e.e = "accept" -> (IF e.c \in ConnKeys THEN ~Accepted(e.c) ELSE FALSE) /\ life \in {"starting", "run", "stop"} /\ srv' = [srv EXCEPT ![e.c].acc = nacc] /\ nacc' = nacc + 1
                         /\ conns' = (IF life = "stop" THEN conns ELSE [conns EXCEPT ![e.c].shut = "no"]) /\ UNCHANGED <<pend, lis, thr, box, ids, rot, life, started>>
    [] e.e = "connected" ->
         /\ (IF e.c \in ConnKeys THEN Accepted(e.c) /\ ~Told(e.c) ELSE FALSE) /\ e.st = 1 /\ e.own /\ e.id \notin ids /\ ids' = ids \cup {e.id}
         /\ e.d \in Dests /\ e.d # 0 /\ thr[e.d] = e.t /\ life \in {"starting", "run", "stop"}
         /\ LET r == (e.d + C.nw - (srv[e.c].acc % C.nw)) % C.nw IN rot \in {0 - 1, r} /\ rot' = r
         /\ srv' = [srv EXCEPT ![e.c].told = TRUE] /\ conns' = [conns EXCEPT ![e.c].th = e.t, ![e.c].id = e.id]
         /\ UNCHANGED <<pend, lis, thr, box, nacc, life, started>>
    [] e.e = "shutreq" -> Told(e.c) /\ conns' = [conns EXCEPT ![e.c] = ShutMay(@)] /\ UNCHANGED <<pend, srv, lis, thr, box, ids, rot, nacc, life, started>>
    [] e.e = "slisten" ->
         /\ lis' = [lis EXCEPT ![e.x + 1].st = IF @ = "off" THEN "off" ELSE "req"]
         /\ conns' = [k \in ConnKeys |-> IF srv[k].x = e.x + 1 /\ ~Accepted(k) THEN ShutMay(conns[k]) ELSE conns[k]]
         /\ UNCHANGED <<pend, srv, thr, box, ids, rot, nacc, life, started>>
    [] e.e = "stop" ->
         IF e.who = "worker" THEN UNCHANGED vars
         ELSE /\ life' = (IF life = "joined" THEN life ELSE "stop") /\ conns' = [k \in ConnKeys |-> ShutMay(conns[k])]
              /\ lis' = [x \in 1..Len(lis) |-> [lis[x] EXCEPT !.st = IF @ = "off" THEN "off" ELSE "req"]] /\ UNCHANGED <<pend, srv, thr, box, ids, rot, nacc, started>>
    [] e.e = "csend" -> life \in {"starting", "run", "stop"} /\ box' = [box EXCEPT ![e.d][e.s] = @ \o e.m] /\ UNCHANGED <<conns, pend, srv, lis, thr, ids, rot, nacc, life, started>>
    [] e.e = "cmd" -> e.d \in Dests /\ e.s \in Senders /\ thr[e.d] = e.t /\ life \in {"starting", "run", "stop"} /\ box[e.d][e.s] # <<>> /\ Cmd(e.d, e) /\ box' = [box EXCEPT ![e.d][e.s] = Tail(@)]
                      /\ UNCHANGED <<conns, pend, srv, lis, thr, ids, rot, nacc, life, started>>
    [] e.e = "quiesce" ->
         /\ life = "run" /\ NoPending /\ started = Dests /\ (\A d \in Dests, s \in Senders : box[d][s] = <<>>)
         /\ LET on == [x \in 1..Len(lis) |-> [lis[x] EXCEPT !.st = IF @ = "starting" THEN "on" ELSE IF @ = "req" THEN "off" ELSE @]] IN
            /\ lis' = on /\ (\A k \in ConnKeys : IF Accepted(k) THEN Quiet(k, e.drained) ELSE on[srv[k].x].st = "off")
         /\ UNCHANGED <<conns, pend, srv, thr, box, ids, rot, nacc, life, started>>
    [] e.e = "joined" ->
         /\ life = "stop" /\ (\A k \in ConnKeys : Accepted(k) => Told(k) /\ conns[k].ph = "closed" /\ conns[k].fdc = 1) /\ life' = "joined"
         /\ lis' = [x \in 1..Len(lis) |-> [lis[x] EXCEPT !.st = "off"]] /\ UNCHANGED <<conns, pend, srv, thr, box, ids, rot, nacc, started>>
    [] e.e = "closed" -> e.fds = 0 /\ (e.ran => life = "joined") /\ UNCHANGED vars
    [] e.e \in {"csent", "slistend", "stopd", "join", "fin"} -> UNCHANGED vars
    [] OTHER -> FALSE
Act == /\ l <= Len(Traces[tr].ev) /\ l' = l + 1 /\ tr' = tr /\ Step(Traces[tr].ev[l])
Tau == /\ l <= Len(Traces[tr].ev) /\ UNCHANGED <<tr, l, srv, lis, thr, box, ids, rot, nacc, life, started>> /\ ConnTau(Traces[tr].ev[l])
Next == Act \/ Tau
Progress == Reached(tr, l)
============================================================================
