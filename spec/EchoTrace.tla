----------------------------- MODULE EchoTrace -----------------------------
(* The echo server seen from its clients.  out[k]: what client k sent, upper *)
(* cased, and has not got back yet.                                        *)
EXTENDS TraceBase
VARIABLES tr, l, cl, run
vars == <<cl, run>>
C == Traces[tr].cfg
Up(b) == IF b >= 97 /\ b <= 122 THEN b - 32 ELSE b
New == [out |-> <<>>, fin |-> "no", quit |-> FALSE, eof |-> FALSE]
Init == tr \in 1..NT /\ l = 1 /\ cl = <<>> /\ run = "up"
Add(f, k, v) == [x \in (DOMAIN f) \cup {k} |-> IF x = k THEN v ELSE f[x]]
MayEnd(c) == c.fin # "no" \/ c.quit \/ run # "up"
Step(e) ==
  CASE e.e = "cc" -> e.ok /\ run = "up" /\ e.k \notin DOMAIN cl /\ cl' = Add(cl, e.k, New) /\ UNCHANGED run
    [] e.e = "ps" -> cl' = [cl EXCEPT ![e.k].out = @ \o [i \in 1..e.n |-> Up(e.d[i])]] /\ UNCHANGED run
    (* everything comes back, in order, once, upper cased *)
    [] e.e = "pr" -> e.n <= Len(cl[e.k].out) /\ SubSeq(cl[e.k].out, 1, e.n) = e.d /\ cl' = [cl EXCEPT ![e.k].out = SubSeq(@, e.n + 1, Len(@))] /\ UNCHANGED run
    [] e.e = "pxit" -> cl' = [cl EXCEPT ![e.k].quit = TRUE] /\ UNCHANGED run
    [] e.e = "pstop" -> run' = "stopping" /\ UNCHANGED cl
    [] e.e \in {"pe", "px"} -> MayEnd(cl[e.k]) /\ cl' = [cl EXCEPT ![e.k].eof = TRUE] /\ UNCHANGED run
    [] e.e \in {"pc", "prst"} -> cl' = [cl EXCEPT ![e.k].fin = "gone"] /\ UNCHANGED run
    [] e.e = "ph" -> cl' = [cl EXCEPT ![e.k].fin = IF @ = "no" THEN "half" ELSE @] /\ UNCHANGED run
    [] e.e = "exit" -> run = "stopping" /\ e.r = 0 /\ run' = "exited" /\ UNCHANGED cl
    (* nothing moves any more: every open client has got everything back, and who asked to leave has left *)
    [] e.e = "quiet" -> /\ \A k \in DOMAIN cl : LET c == cl[k] IN
                             IF c.fin = "gone" THEN TRUE
                             ELSE /\ (c.fin = "no" => c.out = <<>>)
                                  /\ (MayEnd(c) <=> c.eof)
                        /\ run \in {"up", "exited"} /\ UNCHANGED vars
    [] e.e = "fin" -> UNCHANGED vars
    [] OTHER -> FALSE
Next == l <= Len(Traces[tr].ev) /\ l' = l + 1 /\ tr' = tr /\ Step(Traces[tr].ev[l])
Progress == Reached(tr, l)
============================================================================
