---------------------------- MODULE SockTrace ----------------------------
(* The socket calls of socket_api, one thread, any order: every setter     *)
(* changes exactly the setting it names, every result is the truth about   *)
(* what the system did, streams keep their bytes and datagrams stay whole. *)
(* Settings o: nonblocking, close-on-exec, keep-alive, reuse address,      *)
(* reuse port, no delay, linger, linger time.  s[i]: one socket each; "kp" *)
(* and the like are what the system itself says about the socket.          *)
EXTENDS TraceBase
VARIABLES tr, l, s, fault
Fresh(udp, o) == [udp |-> udp, o |-> o, st |-> "new", port |-> 0, in |-> <<>>, peer |-> -1, waits |-> <<>>, err |-> 0, eof |-> FALSE, bad |-> FALSE]
Init == tr \in 1..NT /\ l = 1 /\ s = <<>> /\ fault = FALSE
N == Len(s)
X(i) == s[i + 1]
Ids == 1..N
Open(i) == i + 1 \in Ids /\ (IF i + 1 \in Ids THEN X(i).st # "closed" ELSE FALSE)
Put(i, v) == s' = [s EXCEPT ![i + 1] = v]
Zeros == <<0, 0, 0, 0, 0, 0, 0, 0>>
Wanted(o, e) == LET v == IF e.on THEN 1 ELSE 0 IN
  IF e.w <= 5 THEN [o EXCEPT ![e.w + 1] = v] ELSE [o EXCEPT ![7] = v, ![8] = IF e.on THEN e.tm ELSE 0]
(* ends of one connection: the two know each other once the accepted one is handed out *)
Connect(e) ==
  LET c == X(e.i) IN
  IF c.st = "conn" THEN (e.ok \/ c.bad) /\ s' = s                                 \* connected already counts as success
  ELSE /\ c.st = "new" /\ (e.un => ~e.ok /\ ~e.kc /\ e.le = 101) /\ (~e.un => e.ok)
       /\ IF e.un THEN Put(e.i, [c EXCEPT !.port = e.kp])
          ELSE LET ls == {k \in Ids : s[k].st = "listen" /\ s[k].port = e.p} IN
               IF e.kc THEN \E k \in ls : s' = [s EXCEPT ![e.i + 1] = [c EXCEPT !.st = "conn", !.port = e.kp], ![k].waits = Append(@, e.i)]
               ELSE ls = {} /\ Put(e.i, [c EXCEPT !.st = "refused", !.err = 111, !.port = e.kp])
Accept(e) ==
  LET c == X(e.i)
      q == c.waits IN
  /\ c.st = "listen"
  /\ IF e.j < 0 THEN e.wb /\ q = <<>> /\ s' = s
     ELSE /\ q # <<>> /\ e.j = N
          /\ LET k == Head(q)  x == X(k) IN
             /\ e.p \in {-1, x.port}
             /\ s' = Append([s EXCEPT ![e.i + 1].waits = Tail(@), ![k + 1].peer = e.j],
                            [Fresh(FALSE, e.o) EXCEPT !.st = "conn", !.port = c.port, !.peer = k, !.in = x.waits, !.eof = (x.st = "closed" \/ x.eof), !.bad = (x.bad \/ x.st = "closed")])
(* before the other end is accepted, what is written waits beside the writer *)
Give(i, b) == LET c == X(i) IN IF c.peer < 0 THEN [s EXCEPT ![i + 1].waits = @ \o b] ELSE [s EXCEPT ![c.peer + 1].in = @ \o b]
(* whichever end ends: from now on only what is still under way may be read, and errors are possible *)
Ended(f, i) == LET p == f[i + 1].peer IN [k \in DOMAIN f |-> IF k = p + 1 THEN [f[k] EXCEPT !.eof = TRUE, !.bad = TRUE] ELSE IF k = i + 1 THEN [f[k] EXCEPT !.eof = TRUE, !.bad = TRUE] ELSE f[k]]
Cut(f, ks) == [k \in DOMAIN f |-> IF k - 1 \in ks THEN [f[k] EXCEPT !.eof = TRUE, !.bad = TRUE] ELSE f[k]]
RangeOf(q) == {q[k] : k \in 1..Len(q)}
Step(e) ==
  \/ e.e \in {"ninv", "sinv"} /\ fault' = FALSE /\ s' = s
  \/ e.e \in {"sfail", "ffail"} /\ fault' = TRUE /\ s' = s
  \/ /\ fault' = fault
     /\ \/ e.e = "new" /\ (IF fault THEN e.i < 0 ELSE e.i = N) /\ (IF e.i < 0 THEN s' = s ELSE e.dg = e.udp /\ e.o = Zeros /\ s' = Append(s, Fresh(e.udp, e.o)))
        \/ e.e = "set" /\ e.ok = (e.i >= 0 /\ ~fault) /\ (IF e.i < 0 THEN s' = s ELSE e.o = (IF e.ok THEN Wanted(X(e.i).o, e) ELSE X(e.i).o) /\ Put(e.i, [X(e.i) EXCEPT !.o = e.o]))
        \/ /\ e.e = "bind" /\ (e.ok => e.kp = e.p) /\ (~e.ok => e.kp # e.p \/ X(e.i).port = e.p)
           /\ (X(e.i).st # "new" => ~e.ok)
           /\ (X(e.i).st = "new" /\ X(e.i).port = 0 /\ (\A k \in Ids : k # e.i + 1 => s[k].port # e.p) => e.ok)
           /\ (X(e.i).st = "new" /\ ~X(e.i).udp /\ (\E k \in Ids : s[k].st = "listen" /\ s[k].port = e.p /\ s[k].o[5] = 0) => ~e.ok)
           /\ Put(e.i, IF e.ok THEN [X(e.i) EXCEPT !.st = "bound", !.port = e.p] ELSE X(e.i))
        \/ e.e = "listen" /\ e.ok = e.k /\ e.ok = (X(e.i).st \in {"bound", "listen"}) /\ Put(e.i, IF e.ok THEN [X(e.i) EXCEPT !.st = "listen"] ELSE X(e.i))
        \/ e.e = "conn" /\ Connect(e)
        \/ e.e = "err" /\ (e.v = X(e.i).err \/ X(e.i).bad) /\ Put(e.i, [X(e.i) EXCEPT !.err = 0])
        \/ e.e = "acc" /\ Accept(e)
        \/ /\ e.e = "name" /\ s' = s
           /\ LET c == X(e.i) IN
              IF e.me THEN e.ok /\ (c.port # 0 => e.p = c.port /\ e.lo)
              ELSE (e.ok => e.p > 0 /\ e.lo /\ ~c.udp /\ c.st = "conn") /\ (c.st = "conn" /\ ~c.bad => e.ok /\ (c.peer >= 0 => e.p = X(c.peer).port))
        \/ /\ e.e = "wr" /\ X(e.i).st = "conn" /\ (X(e.i).bad \/ e.r > 0 \/ (e.r < 0 /\ e.wb)) /\ e.r <= Len(e.b)
           /\ s' = (IF e.r > 0 THEN Give(e.i, SubSeq(e.b, 1, e.r)) ELSE s)
        \/ /\ e.e = "rd" /\ X(e.i).st = "conn"
           /\ LET c == X(e.i) IN
              /\ (IF e.r > 0 THEN e.r <= Min2(e.n, Len(c.in)) /\ e.b = SubSeq(c.in, 1, e.r) ELSE c.bad \/ (c.in = <<>> /\ e.r < 0 /\ e.wb))
              /\ Put(e.i, IF e.r > 0 THEN [c EXCEPT !.in = SubSeq(@, e.r + 1, Len(@))] ELSE c)
        \/ /\ e.e = "st" /\ e.r = Len(e.b)
           /\ LET d == {k \in Ids : s[k].udp /\ s[k].st = "bound" /\ s[k].port = e.p} IN
              IF d = {} THEN s' = s ELSE \E k \in d : s' = [s EXCEPT ![k].waits = Append(@, <<X(e.i).port, e.b>>)]
        \/ /\ e.e = "rf" /\ LET c == X(e.i) IN
              IF c.waits = <<>> THEN e.r < 0 /\ e.wb /\ s' = s
              ELSE LET d == Head(c.waits) IN /\ e.r = Min2(e.n, Len(d[2])) /\ e.p = d[1] /\ e.b = SubSeq(d[2], 1, e.r) /\ Put(e.i, [c EXCEPT !.waits = Tail(@)])
        \/ /\ e.e = "shut" /\ (X(e.i).st = "conn" /\ ~X(e.i).bad => e.ok) /\ (X(e.i).st # "conn" => ~e.ok)
           /\ s' = (IF e.ok THEN Ended(s, e.i) ELSE s)
        (* with a listening socket the connections it has not handed out go too *)
        \/ e.e = "close" /\ LET c == X(e.i)  f == Ended(s, e.i) IN s' = [(IF c.st = "listen" THEN Cut(f, RangeOf(c.waits)) ELSE f) EXCEPT ![e.i + 1].st = "closed", ![e.i + 1].port = IF c.st = "conn" /\ ~c.udp THEN @ ELSE 0]
        \/ e.e = "sigpipe" /\ (\E k \in Ids : s[k].bad) /\ s' = s
        \/ e.e = "ntoh" /\ s' = s /\ LET W(v) == (v % 256) * 256 + v \div 256 IN e.q = W(e.y) /\ e.r = <<W(e.x[2]), W(e.x[1])>>
        (* what the library sets up itself: never blocks, is not inherited by programs started later, notices dead peers, *)
        (* sends at once, closes in the background; an address is shared only when asked for                            *)
        \/ e.e = "prep" /\ e.o[1] = 1 /\ e.o[2] = 1 /\ (IF e.w = "lis" THEN (IF e.reuse THEN e.o[4] = 1 /\ e.o[5] = 1 ELSE e.o[5] = 0) ELSE e.o[3] = 1 /\ e.o[6] = 1 /\ e.o[7] = 0) /\ s' = s
        \/ e.e \in {"bnd", "cn"} /\ e.ok /\ s' = s
        \/ e.e = "all" /\ e.n > 0 /\ e.bad = 0 /\ s' = s
        \/ e.e = "left" /\ e.n = 0 /\ s' = s
        \/ e.e = "fin" /\ s' = s
Next == /\ l <= Len(Traces[tr].ev) /\ l' = l + 1 /\ tr' = tr /\ Step(Traces[tr].ev[l])
Progress == Reached(tr, l)
============================================================================
