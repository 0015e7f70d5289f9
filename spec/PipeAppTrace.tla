--------------------------- MODULE PipeAppTrace ---------------------------
(* relay_pipe: two ends made one connection.  Each side of the pipe either *)
(* listens (in1 / in2) or connects.  The first connection of a listening   *)
(* side and the only one of a connecting side are the ends (keys 0 and     *)
(* 100); what else comes is refused.                                       *)
EXTENDS TraceBase
VARIABLES tr, l, p, ready, over, gone, joined
(* p: the peers by key; over: an end has ended; gone: the program ended; joined: the pipe stood *)
(* for certain before an end ended                                                                     *)
vars == <<p, ready, over, gone, joined>>
Pr == [out |-> <<>>, fin |-> "no", un |-> FALSE, eof |-> FALSE, late |-> FALSE]
Init == tr \in 1..NT /\ l = 1 /\ p = <<>> /\ ready = FALSE /\ over = FALSE /\ gone = FALSE /\ joined = FALSE
Cfg == Traces[tr].cfg
Add(f, k, v) == [x \in (DOMAIN f) \cup {k} |-> IF x = k THEN v ELSE f[x]]
IsPre(d, s) == Len(d) <= Len(s) /\ SubSeq(s, 1, Len(d)) = d
Drop(s, n) == SubSeq(s, n + 1, Len(s))
End(k) == k \in {0, 100}
Other(k) == 100 - k
Here(k) == k \in DOMAIN p
Joined == joined \/ (Here(0) /\ Here(100) /\ ~over)
Quiet(k) == LET c == p[k] IN
  IF c.fin = "gone" THEN TRUE
  ELSE IF ~End(k) THEN c.eof
  ELSE /\ (c.eof <=> over)
       /\ ((~over /\ Here(Other(k))) => p[Other(k)].out = <<>>)
Step(e) ==
  CASE e.e = "ready" -> ready' = TRUE /\ UNCHANGED <<p, over, gone, joined>>
    [] e.e = "cc" -> /\ (~e.ok => ~ready \/ over) /\ ~(e.ok /\ gone)
                     /\ p' = (IF e.ok THEN Add(p, e.k, [Pr EXCEPT !.late = over]) ELSE p) /\ UNCHANGED <<ready, over, gone, joined>>
    (* a connecting side has one connection only *)
    [] e.e = "ac" -> End(e.k) /\ p' = Add(p, e.k, [Pr EXCEPT !.late = over]) /\ UNCHANGED <<ready, over, gone, joined>>
    [] e.e = "ps" -> p' = [p EXCEPT ![e.k].out = @ \o e.d] /\ UNCHANGED <<ready, over, gone, joined>>
    (* what arrives at one end is what the other end sent, in order, once; nobody else gets anything *)
    [] e.e = "pr" -> /\ End(e.k) /\ Here(Other(e.k)) /\ IsPre(e.d, p[Other(e.k)].out)
                     /\ p' = [p EXCEPT ![Other(e.k)].out = Drop(@, e.n)] /\ joined' = (joined \/ ~over) /\ UNCHANGED <<ready, over, gone>>
    (* an end sees the end of the stream when one of the two has ended; everything the other one sent before it ended came first, *)
    (* unless it had not taken all that came for it                                                                              *)
    [] e.e \in {"pe", "px"} ->
         /\ IF ~End(e.k) THEN TRUE
            ELSE /\ over
                 /\ (IF joined /\ p[e.k].fin = "no" /\ ~p[e.k].late
                     THEN LET o == p[Other(e.k)] IN o.late \/ o.un \/ p[e.k].out # <<>> \/ o.out = <<>>
                     ELSE TRUE)
         /\ p' = [p EXCEPT ![e.k].eof = TRUE] /\ UNCHANGED <<ready, over, gone, joined>>
    [] e.e \in {"pc", "prst", "ph"} ->
         LET un == e.e = "prst" \/ (IF Has(e, "un") THEN e.un > 0 ELSE FALSE) IN
         /\ p' = [p EXCEPT ![e.k].fin = IF e.e = "ph" /\ @ # "gone" THEN "half" ELSE "gone", ![e.k].un = @ \/ un]
         /\ over' = (over \/ End(e.k)) /\ UNCHANGED <<ready, gone, joined>>
    (* the program goes when an end has ended *)
    [] e.e = "exit" -> over /\ e.r = 0 /\ gone' = TRUE /\ UNCHANGED <<p, ready, over, joined>>
    [] e.e = "quiet" -> /\ \A k \in DOMAIN p : Quiet(k)
                        /\ (over <=> gone)
                        /\ joined' = Joined /\ UNCHANGED <<p, ready, over, gone>>
    [] e.e = "settled" -> joined' = Joined /\ UNCHANGED <<p, ready, over, gone>>
    [] e.e = "fin" -> UNCHANGED vars
    [] OTHER -> FALSE
Next == l <= Len(Traces[tr].ev) /\ l' = l + 1 /\ tr' = tr /\ Step(Traces[tr].ev[l])
Progress == Reached(tr, l)
============================================================================
