---------------------------- MODULE SocksTrace ----------------------------
(* The SOCKS5 proxy seen from its clients (k) and from the hosts it connects *)
(* to (100 + k listens on the port client k asks for).                     *)
(* st: greet, hello (greeting accepted), conn (request accepted, connecting), *)
(* up (tunnel established), failed, bad.  ub: protocol bytes sent and not   *)
(* yet interpreted; want: replies the client has to get; up, dn: tunnel     *)
(* bytes under way.                                                        *)
EXTENDS TraceBase
VARIABLES tr, l, cl
New == [st |-> "greet", ub |-> <<>>, want |-> <<>>, up |-> <<>>, dn |-> <<>>, att |-> "no", acc |-> FALSE, cfin |-> "no", rfin |-> "no", ceof |-> FALSE, reof |-> FALSE, cun |-> FALSE, run |-> FALSE, odd |-> FALSE, hs |-> FALSE]
Init == tr \in 1..NT /\ l = 1 /\ cl = <<>>
Add(f, k, v) == [x \in (DOMAIN f) \cup {k} |-> IF x = k THEN v ELSE f[x]]
(* RFC 1928: version, number of methods, methods *)
Greet(b) == IF Len(b) >= 1 /\ b[1] # 5 THEN "bad" ELSE IF Len(b) < 3 THEN "more" ELSE IF Len(b) < b[2] + 2 THEN "more"
            ELSE IF \E i \in 3..(b[2] + 2) : b[i] = 0 THEN "ok" ELSE "bad"
(* version, command (connect only), reserved, address type (IPv4 or name), address, port *)
ReqLen(b) == IF b[4] = 1 THEN 10 ELSE 7 + b[5]
Req(b) == IF Len(b) >= 1 /\ b[1] # 5 THEN "bad" ELSE IF Len(b) >= 2 /\ b[2] # 1 THEN "bad" ELSE IF Len(b) < 4 THEN "more"
          ELSE IF b[4] \notin {1, 3} THEN "bad" ELSE IF Len(b) < 5 THEN "more" ELSE IF Len(b) < ReqLen(b) THEN "more"
          ELSE IF b[4] = 3 THEN (IF b[5] > 0 /\ b[6] = 104 THEN "ok" ELSE "bad") ELSE "ok"
ReqPort(b) == b[ReqLen(b) - 1] * 256 + b[ReqLen(b)]
Reply(k, code) == <<5, code, 0, 1, 127, 0, 0, 1, (21000 + k) \div 256, (21000 + k) % 256>>
(* a message which is wrong from its first bytes on may be refused before it is complete *)
Feed(k, c, d) ==
  CASE c.st = "greet" -> LET b == c.ub \o d  g == Greet(b) IN
         IF g = "ok" THEN [c EXCEPT !.st = "hello", !.ub = <<>>, !.want = @ \o <<5, 0>>] ELSE IF g = "bad" THEN [c EXCEPT !.st = "bad", !.ub = b, !.hs = TRUE] ELSE [c EXCEPT !.ub = b]
    [] c.st = "hello" -> LET b == c.ub \o d  g == Req(b) IN
         IF g = "ok" THEN (IF ReqPort(SubSeq(b, 1, ReqLen(b))) = 21000 + k THEN [c EXCEPT !.st = "conn", !.ub = <<>>] ELSE [c EXCEPT !.odd = TRUE]) ELSE IF g = "bad" THEN [c EXCEPT !.st = "bad", !.ub = b] ELSE [c EXCEPT !.ub = b]
    [] c.st = "bad" -> [c EXCEPT !.ub = @ \o d]
    [] c.st \in {"conn", "up"} -> [c EXCEPT !.up = @ \o d]
    [] OTHER -> c
(* the longest message its first bytes may announce has been received *)
Complete(c) == LET b == c.ub IN
  IF c.hs THEN Len(b) >= 3 /\ Len(b) >= b[2] + 2
  ELSE Len(b) >= 5 /\ Len(b) >= Max2(10, 7 + b[5])
IsPre(d, s) == Len(d) <= Len(s) /\ SubSeq(s, 1, Len(d)) = d
Drop(s, n) == SubSeq(s, n + 1, Len(s))
Remote(k) == k >= 100
(* nothing moves any more *)
Settled(k, c) ==
  /\ IF c.cfin = "gone" THEN TRUE
     ELSE /\ (c.ceof => (c.cfin = "half" \/ c.st \in {"bad", "failed"} \/ (c.acc /\ c.rfin # "no")))
          /\ ((c.cfin = "half" \/ c.st = "failed" \/ (c.st = "bad" /\ Complete(c)) \/ (c.acc /\ c.rfin # "no")) => c.ceof)
          /\ (c.cfin = "no" /\ ~c.ceof => c.want = <<>> /\ c.dn = <<>>)
  /\ IF c.acc /\ c.rfin # "gone"
     THEN /\ (c.reof <=> (c.rfin = "half" \/ c.cfin # "no"))
          /\ (~c.reof => c.up = <<>>)
     ELSE TRUE
  /\ (c.st = "conn" /\ c.cfin = "no" => c.att = "going")
Step(e) ==
  CASE e.e = "cc" -> e.ok /\ cl' = Add(cl, e.k, New)
    [] e.e = "ps" -> cl' = (IF Remote(e.k) THEN [cl EXCEPT ![e.k - 100].dn = @ \o e.d] ELSE [cl EXCEPT ![e.k] = Feed(e.k, @, e.d)])
    (* the proxy connects where it was asked to, once, and only after the handshake *)
    [] e.e = "att" -> cl[e.k].st = "conn" /\ cl[e.k].att = "no" /\ cl' = [cl EXCEPT ![e.k].att = IF e.err = 0 THEN "going" ELSE "bad", ![e.k].st = IF e.err = 0 THEN @ ELSE "failed", ![e.k].want = IF e.err = 0 THEN @ ELSE @ \o Reply(e.k, 4)]
    [] e.e = "attd" -> cl[e.k].att = "going" /\ cl' = [cl EXCEPT ![e.k].att = IF e.err = 0 THEN "ok" ELSE "bad", ![e.k].st = IF e.err = 0 THEN "up" ELSE "failed", ![e.k].want = @ \o Reply(e.k, IF e.err = 0 THEN 0 ELSE 4)]
    [] e.e = "ac" -> cl[e.k - 100].att = "ok" /\ cl' = [cl EXCEPT ![e.k - 100].acc = TRUE]
    (* the bytes of one side reach the other unchanged, in order, once *)
    [] e.e = "pr" -> IF Remote(e.k) THEN IsPre(e.d, cl[e.k - 100].up) /\ cl' = [cl EXCEPT ![e.k - 100].up = Drop(@, e.n)]
                     ELSE LET c == cl[e.k] IN /\ IsPre(e.d, c.want \o c.dn)
                                              /\ cl' = [cl EXCEPT ![e.k].want = Drop(@, Min2(e.n, Len(c.want))), ![e.k].dn = IF e.n <= Len(c.want) THEN @ ELSE Drop(@, e.n - Len(c.want))]
    (* a side sees the end only when the other side ended, the handshake was refused or the connection failed; and then *)
    (* it has got everything unless it ended itself or data was still under way to a host that had gone *)
    [] e.e \in {"pe", "px"} ->
         IF Remote(e.k) THEN LET c == cl[e.k - 100] IN
              /\ c.cfin # "no" \/ c.rfin # "no"
              /\ (e.e = "px" => c.run \/ c.rfin # "no" \/ c.cun \/ c.dn # <<>>)
              \* the host which did nothing to cause it has got everything the client sent before it ended, unless the
              \* client left with bytes on the way to it
              /\ (c.cfin # "no" /\ c.rfin = "no" /\ ~c.cun /\ c.want = <<>> /\ c.dn = <<>> => c.up = <<>>)
              /\ cl' = [cl EXCEPT ![e.k - 100].reof = TRUE]
         ELSE LET c == cl[e.k] IN
              /\ c.cfin # "no" \/ c.rfin # "no" \/ c.st \in {"bad", "failed"}
              /\ (c.cfin = "no" /\ c.st = "failed" => c.want = <<>>)
              /\ (c.cfin = "no" /\ c.rfin \in {"half", "gone"} /\ ~c.run /\ c.up = <<>> => c.want \o c.dn = <<>>)
              /\ cl' = [cl EXCEPT ![e.k].ceof = TRUE]
    [] e.e \in {"pc", "prst"} -> LET un == e.e = "prst" \/ (IF Has(e, "un") THEN e.un > 0 ELSE FALSE) IN
              cl' = (IF Remote(e.k) THEN [cl EXCEPT ![e.k - 100].rfin = "gone", ![e.k - 100].run = @ \/ un] ELSE [cl EXCEPT ![e.k].cfin = "gone", ![e.k].cun = @ \/ un])
    [] e.e = "ph" -> cl' = (IF Remote(e.k) THEN [cl EXCEPT ![e.k - 100].rfin = IF @ = "no" THEN "half" ELSE @] ELSE [cl EXCEPT ![e.k].cfin = IF @ = "no" THEN "half" ELSE @])
    [] e.e = "quiet" -> (\A k \in DOMAIN cl : Settled(k, cl[k])) /\ UNCHANGED cl
    [] e.e = "fin" -> UNCHANGED cl
    [] OTHER -> FALSE
Next == l <= Len(Traces[tr].ev) /\ l' = l + 1 /\ tr' = tr /\ Step(Traces[tr].ev[l])
Progress == Reached(tr, l)
============================================================================
