---------------------------- MODULE ClientTrace ----------------------------
(* A client: its connection attempts and their outcomes, the retry, the    *)
(* data kept while connecting, and the life of the established connection. *)
(* cs: idle, conn (attempt cur under way), retry (waits until due), est    *)
(* (established: connection cur, open or closed), gone.                    *)
EXTENDS Conn
VARIABLES tr, l, cs, cur, ares, due, cache, cn, incc, incb, renew, open, indc
vars == <<conns, pend, cs, cur, ares, due, cache, cn, incc, incb, renew, open, indc>>
C == Traces[tr].cfg
Init == /\ tr \in 1..NT /\ l = 1 /\ conns = <<>> /\ pend = [t \in Threads |-> Idle] /\ cs = "idle" /\ cur = 0 - 1 /\ ares = "none" /\ due = 0
        /\ cache = <<>> /\ cn = 0 /\ incc = FALSE /\ incb = FALSE /\ renew = FALSE /\ indc = FALSE /\ open = [t \in Threads |-> {}]
Add(f, k, v) == [x \in (DOMAIN f) \cup {k} |-> IF x = k THEN v ELSE f[x]]
End(k) == IF k \notin ConnKeys THEN conns ELSE [conns EXCEPT ![k].shut = "done", ![k].ph = "closed"]
(* what the reported state may be, while a call that changes it is under way too; ares: none (still under way), bad, ok *)
View(s, a, k, cc) ==
  IF s # "conn" /\ cc THEN {0, 3}
  ELSE IF s = "conn" THEN (CASE a = "none" -> (IF cc THEN {0, 3} ELSE {0}) [] a = "bad" -> {0, 3} [] OTHER -> {0, 1, 2, 3})
  ELSE IF s = "est" THEN (LET c == conns'[k] IN IF c.ph = "closed" THEN {2, 3} ELSE IF c.shut = "no" /\ c.brk = "no" THEN {1} ELSE {1, 2, 3})
  ELSE IF incb' THEN {0, 3} ELSE {3}
(* the same seen by the loop's own thread, which reports outcomes itself *)
Mine == IF cs = "conn" THEN (IF ares = "bad" /\ incc THEN {0, 3} ELSE {0})
        ELSE IF cs = "est" THEN (LET c == conns[cur] IN IF c.ph = "closed" THEN {3} ELSE IF c.shut = "no" /\ c.brk = "no" THEN {1} ELSE {1, 2, 3})
        ELSE IF incb THEN {0, 3} ELSE {3}
Now == View(cs', ares', cur', incc') \cup (IF indc' THEN {0} ELSE {})
Track(e) == open' = [t \in Threads |-> IF e.e = "csi" /\ e.t = t THEN Now ELSE IF open[t] = {} THEN {} ELSE open[t] \cup Now]
Broken == conns[cur].brk # "no"
Flushed(c) == [c EXCEPT !.wire = RCat(@, cache), !.wn = @ + cn, !.due = (@ \/ cn > 0), !.lossy = @ \/ c.brk # "no"]
Step(e) ==
  CASE e.e \in ConnEvents ->
         /\ (e.e \in {"msg", "sendc", "close", "send", "sent", "shut", "shutd", "stats"} => e.c = cur)
         /\ (e.e \in {"msg", "sendc", "close", "shut", "shutd", "stats"} => cs \in (IF e.e = "shutd" THEN {"est", "gone"} ELSE {"est"}) /\ (IF cur \in ConnKeys THEN conns[cur].th >= 0 ELSE FALSE))
         (* another thread may use the connection as soon as it is reported as connected, which may be before the callback *)
         /\ (e.e \in {"send", "sent"} => cs \in {"est", "gone"} \/ (cs = "conn" /\ ares \in {"ok", "flushed"}))
         (* inside the outcome callback the end is reported only by what that callback does: a shutdown, or a send that finds the connection reset *)
         /\ (e.e \in {"msg", "sendc"} => ~incb) /\ (IF e.e = "close" /\ incb THEN conns[cur].shut = "in" \/ (conns[cur].brk = "rst" /\ pend[e.t].st # "idle") ELSE TRUE)
         /\ (IF e.e = "fdclose" /\ e.c = cur /\ cs = "conn" THEN ares \in {"bad", "ok", "imm"} ELSE TRUE)
         /\ ConnStep(e) /\ UNCHANGED <<cs, cur, ares, due, cache, cn, incc, incb, renew>>
    [] e.e = "poll" -> conns' = [k \in ConnKeys |-> IF conns[k].th = e.t THEN [conns[k] EXCEPT !.pollEnd = conns[k].retEnd] ELSE conns[k]] /\ UNCHANGED <<pend, cs, cur, ares, due, cache, cn, incc, incb, renew>>
    [] e.e = "cnew" -> e.st = 3 /\ e.par /\ e.own /\ UNCHANGED <<conns, pend, cs, cur, ares, due, cache, cn, incc, incb, renew>>
    (* connect replaces a retry that still waits *)
    [] e.e = "cc" -> cs \in {"idle", "retry", "failed"} /\ cs' = "idle" /\ incc' = TRUE /\ renew' = TRUE /\ UNCHANGED <<conns, pend, cur, ares, due, cache, cn, incb>>
    [] e.e = "ccr" -> /\ incc /\ incc' = FALSE /\ e.sp = 21000 /\ (e.ok = (cs = "conn" /\ ares # "imm")) /\ cs' = (IF e.ok THEN "conn" ELSE "idle")
                      /\ UNCHANGED <<conns, pend, cur, ares, due, cache, cn, incb, renew>>
    (* an attempt is made by connect, or by the retry, once and not before its time *)
    [] e.e = "attempt" ->
         /\ (IF incc THEN cs = "idle" ELSE cs = "retry" /\ e.now >= due /\ ~incb)
         /\ cs' = "conn" /\ cur' = e.c /\ e.c \notin ConnKeys /\ conns' = Add(conns, e.c, [NewConn EXCEPT !.ph = "pre"])
         /\ ares' = (IF e.err = 0 THEN "none" ELSE "imm") /\ UNCHANGED <<pend, due, cache, cn, incc, incb, renew>>
    (* the system has no socket to give: the attempt fails at once *)
    [] e.e = "sfail" ->
         /\ (IF incc THEN cs = "idle" ELSE cs = "retry" /\ e.now >= due /\ ~incb)
         /\ cs' = "conn" /\ cur' = 0 - 1 /\ ares' = "imm" /\ UNCHANGED <<conns, pend, due, cache, cn, incc, incb, renew>>
    [] e.e = "adone" -> /\ (e.c = cur /\ cs = "conn" => ares = "none") /\ ares' = (IF e.c = cur /\ cs = "conn" THEN (IF e.err = 0 THEN "ok" ELSE "bad") ELSE ares)
                        /\ conns' = [conns EXCEPT ![e.c].ph = IF @ = "pre" /\ e.err = 0 THEN "open" ELSE @] /\ UNCHANGED <<pend, cs, cur, due, cache, cn, incc, incb, renew>>
    (* the one report of an attempt *)
    [] e.e = "oc" ->
         /\ ~incc /\ ~incb /\ cs = "conn" /\ e.same /\ incb' = TRUE /\ renew' = FALSE
         /\ IF e.ok THEN /\ ares \in {"ok", "flushed"} /\ (ares = "ok" => cn = 0) /\ e.c = cur /\ e.id = C.id /\ e.st \in (IF Broken THEN {1, 2} ELSE {1})
                         /\ cs' = "est" /\ conns' = [conns EXCEPT ![cur].th = e.t, ![cur].id = e.id, ![cur].retEnd = Total(conns[cur])]
            ELSE /\ e.null /\ (CASE ares \in {"bad", "imm"} -> TRUE [] ares \in {"ok"} -> Broken [] OTHER -> FALSE)
                 /\ cs' = "failed" /\ conns' = End(cur)
         /\ UNCHANGED <<pend, cur, ares, due, cache, cn, incc>>
    [] e.e = "ocr" ->
         /\ incb /\ incb' = FALSE
         /\ IF e.ok THEN cs \in {"est", "gone"} /\ UNCHANGED <<cs, due>>
            ELSE IF renew THEN UNCHANGED due /\ cs' = (IF cs = "failed" THEN "idle" ELSE cs)
            ELSE cs' = (IF e.ret > 0 /\ cs # "gone" THEN "retry" ELSE IF cs = "gone" THEN "gone" ELSE "idle") /\ due' = e.now + 1000 * e.ret
         /\ UNCHANGED <<conns, pend, cur, ares, cache, cn, incc, renew>>
    (* disconnect ends whatever goes on and forgets what was not handed over *)
    [] e.e = "disc" ->
         /\ cache' = <<>> /\ cn' = 0 /\ renew' = TRUE
         /\ CASE cs = "conn" -> cs' = "idle" /\ conns' = End(cur)
              [] cs = "est" -> UNCHANGED cs /\ conns' = (IF conns[cur].ph = "open" THEN [conns EXCEPT ![cur].shut = IF @ = "done" THEN "done" ELSE "in"] ELSE conns)
              [] OTHER -> UNCHANGED conns /\ cs' = (IF cs \in {"retry", "failed"} THEN "idle" ELSE cs)
         /\ UNCHANGED <<pend, cur, ares, due, incc, incb>>
    [] e.e = "discd" -> conns' = (IF cs = "est" THEN [conns EXCEPT ![cur].shut = "done"] ELSE conns) /\ UNCHANGED <<pend, cs, cur, ares, due, cache, cn, incc, incb, renew>>
    (* data sent on the loop thread while not connected: kept while connecting, dropped otherwise *)
    [] e.e = "csnd" ->
         /\ (IF cs = "conn" THEN cache' = RAppend(cache, e.b, e.n) /\ cn' = cn + e.n ELSE UNCHANGED <<cache, cn>>)
         /\ UNCHANGED <<conns, pend, cs, cur, ares, due, incc, incb, renew>>
    [] e.e = "csi" -> UNCHANGED <<conns, pend, cs, cur, ares, due, cache, cn, incc, incb, renew>>
    [] e.e = "cs" -> (IF e.loop THEN e.v \in Mine ELSE e.v \in open[e.t]) /\ UNCHANGED <<conns, pend, cs, cur, ares, due, cache, cn, incc, incb, renew>>
    [] e.e = "drop" -> cs' = "gone" /\ conns' = (IF cs = "conn" THEN End(cur) ELSE conns) /\ UNCHANGED <<pend, cur, ares, due, cache, cn, incc, incb, renew>>
    [] e.e = "quiesce" ->
         /\ NoPending /\ ~incc /\ ~incb
         /\ CASE cs = "conn" -> ares = "none" [] cs = "retry" -> e.now < due + 1000 [] cs = "est" -> Settled(conns[cur], e.drained, C.sc)
              [] OTHER -> TRUE
         /\ (\A k \in ConnKeys : k # cur \/ cs \in {"idle", "retry", "gone"} => conns[k].fdc = 1)
         /\ UNCHANGED <<conns, pend, cs, cur, ares, due, cache, cn, incc, incb, renew>>
    [] e.e = "gone" -> cs = "gone" /\ (\A k \in ConnKeys : conns[k].fdc = 1) /\ UNCHANGED <<conns, pend, cs, cur, ares, due, cache, cn, incc, incb, renew>>
    [] e.e = "closed" -> e.fds = 0 /\ UNCHANGED <<conns, pend, cs, cur, ares, due, cache, cn, incc, incb, renew>>
    [] e.e \in {"fin", "paccept"} -> UNCHANGED <<conns, pend, cs, cur, ares, due, cache, cn, incc, incb, renew>>
    [] OTHER -> FALSE
Act == /\ l <= Len(Traces[tr].ev) /\ l' = l + 1 /\ tr' = tr /\ Step(Traces[tr].ev[l]) /\ indc' = (IF Traces[tr].ev[l].e = "disc" THEN TRUE ELSE IF Traces[tr].ev[l].e = "discd" THEN FALSE ELSE indc) /\ Track(Traces[tr].ev[l])
(* what was kept is handed over before the report and before anything else *)
Flush(e) == /\ cs = "conn" /\ ares = "ok" /\ cn > 0 /\ (IF e.e = "oc" THEN e.ok ELSE e.e \in {"recv", "sent"} /\ e.c = cur)
            /\ conns' = [conns EXCEPT ![cur] = Flushed(@)] /\ ares' = "flushed" /\ cache' = <<>> /\ cn' = 0
            /\ UNCHANGED <<pend, cs, cur, due, incc, incb, renew>>
Tau == /\ l <= Len(Traces[tr].ev) /\ UNCHANGED <<tr, l, open, indc>>
       /\ \/ Flush(Traces[tr].ev[l])
          \/ /\ UNCHANGED <<cs, cur, ares, due, cache, cn, incc, incb, renew>>
             /\ IF Traces[tr].ev[l].e = "discd" THEN cs = "est" /\ \E t \in Threads : AcceptBy(t, cur) ELSE ConnTau(Traces[tr].ev[l]) /\ (cs = "conn" => cn = 0)
Next == Act \/ Tau
Progress == Reached(tr, l)
============================================================================
