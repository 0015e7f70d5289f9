----------------------------- MODULE ChatTrace -----------------------------
(* The chat server seen from its clients.  msgs[j]: the messages of client *)
(* j so far; nxt[k][j]: the next message of j that k has to get (0 - 1:    *)
(* none got yet), low[k][j]: messages of j from this one on must reach k.  *)
EXTENDS TraceBase
VARIABLES tr, l, cl
C == Traces[tr].cfg
New == [msgs |-> <<>>, whole |-> 0, fin |-> "no", lossy |-> FALSE, eof |-> FALSE, nxt |-> <<>>, low |-> <<>>]
Init == tr \in 1..NT /\ l = 1 /\ cl = <<>>
Add(f, k, v) == [x \in (DOMAIN f) \cup {k} |-> IF x = k THEN v ELSE f[x]]
Get(f, k, d) == IF k \in DOMAIN f THEN f[k] ELSE d
Step(e) ==
  CASE e.e = "cc" -> e.ok /\ e.k \notin DOMAIN cl /\ cl' = Add(cl, e.k, New)
    (* a new message is being written, cw: all of it is *)
    [] e.e = "cm" -> e.q = Len(cl[e.k].msgs) /\ cl' = [cl EXCEPT ![e.k].msgs = Append(@, e.b)]
    [] e.e = "cw" -> cl' = [cl EXCEPT ![e.k].whole = e.q + 1]
    (* a whole message of some client, unchanged; the messages of one client in order, none twice, none left out once they started *)
    [] e.e = "cr" -> /\ e.id = 0 /\ e.f \in DOMAIN cl /\ LET c == cl[e.k]  n == Get(c.nxt, e.f, 0 - 1)  w == Get(c.low, e.f, 1000) IN
                          /\ e.q < Len(cl[e.f].msgs) /\ cl[e.f].msgs[e.q + 1] = e.b
                          /\ (IF n >= 0 THEN e.q = n ELSE e.q <= w)
                          /\ cl' = [cl EXCEPT ![e.k].nxt = Add(@, e.f, e.q + 1)]
    (* everybody who is connected has been taken in: what is written from now on reaches them *)
    [] e.e = "joined" -> cl' = [k \in DOMAIN cl |-> [cl[k] EXCEPT !.low = [j \in (DOMAIN cl) |-> Get(cl[k].low, j, cl[j].whole + (IF Len(cl[j].msgs) > cl[j].whole THEN 1 ELSE 0))]]]
    [] e.e \in {"pe", "px"} -> cl[e.k].fin # "no" /\ cl' = [cl EXCEPT ![e.k].eof = TRUE]
    [] e.e = "pc" -> cl' = [cl EXCEPT ![e.k].fin = "gone", ![e.k].lossy = @ \/ e.un > 0]
    [] e.e = "prst" -> cl' = [cl EXCEPT ![e.k].fin = "gone", ![e.k].lossy = TRUE]
    [] e.e = "ph" -> cl' = [cl EXCEPT ![e.k].fin = IF @ = "no" THEN "half" ELSE @]
    [] e.e = "quiet" -> /\ \A k \in DOMAIN cl : LET c == cl[k] IN
                             IF c.fin = "gone" THEN TRUE
                             ELSE /\ (c.eof <=> c.fin = "half")
                                  /\ (c.fin = "no" => \A j \in DOMAIN cl : LET n == Get(c.nxt, j, 0 - 1)  w == Get(c.low, j, 1000) IN
                                         (cl[j].lossy \/ cl[j].fin # "no" \/ (IF n >= 0 THEN n = cl[j].whole ELSE w >= cl[j].whole)))
                        /\ UNCHANGED cl
    [] e.e = "fin" -> UNCHANGED cl
    [] OTHER -> FALSE
Next == l <= Len(Traces[tr].ev) /\ l' = l + 1 /\ tr' = tr /\ Step(Traces[tr].ev[l])
Progress == Reached(tr, l)
============================================================================
