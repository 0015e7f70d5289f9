---------------------------- MODULE RelayTrace ----------------------------
(* relay_local and relay_server as one tunnel, seen from the clients (k <  *)
(* 100), from the target (100 <= k < 200, one connection per client) and   *)
(* from strangers who talk to the relay server directly (k >= 200).        *)
(* own[r]: the client whose bytes arrive on connection r of the target.    *)
EXTENDS TraceBase
VARIABLES tr, l, cl, rm, own, nf, ready
vars == <<cl, rm, own, nf, ready>>
Cl == [rk |-> 0, up |-> <<>>, dn |-> <<>>, fin |-> "no", un |-> FALSE, eof |-> FALSE, early |-> ~ready]
Rm == [fin |-> "no", un |-> FALSE, eof |-> FALSE]
Init == tr \in 1..NT /\ l = 1 /\ cl = <<>> /\ rm = <<>> /\ own = <<>> /\ nf = 0 /\ ready = FALSE
Add(f, k, v) == [x \in (DOMAIN f) \cup {k} |-> IF x = k THEN v ELSE f[x]]
IsPre(d, s) == Len(d) <= Len(s) /\ SubSeq(s, 1, Len(d)) = d
Drop(s, n) == SubSeq(s, n + 1, Len(s))
Stranger(k) == k >= 200
Target(k) == k >= 100 /\ k < 200
Owned(r) == r \in DOMAIN own
(* connections of the target nobody is known to own, clients without a known connection *)
Loose == {r \in DOMAIN rm : ~Owned(r)}
Alone == {k \in DOMAIN cl : cl[k].rk = 0}
QuietClient(k) == LET c == cl[k] IN
  IF c.fin = "gone" THEN TRUE
  ELSE /\ (c.eof <=> (c.fin = "half" \/ (IF c.rk = 0 THEN c.eof ELSE rm[c.rk].fin # "no")))
       /\ (c.fin = "no" /\ ~c.eof => c.rk # 0 /\ c.dn = <<>>)
QuietTarget(r) == LET m == rm[r] IN
  IF m.fin = "gone" THEN TRUE
  ELSE /\ (m.eof <=> (m.fin = "half" \/ (IF Owned(r) THEN cl[own[r]].fin # "no" ELSE m.eof)))
       /\ (m.fin = "no" /\ ~m.eof => Owned(r) /\ cl[own[r]].up = <<>>)
Step(e) ==
  CASE e.e = "ready" -> ready' = TRUE /\ UNCHANGED <<cl, rm, own, nf>>
    [] e.e = "cc" -> IF Stranger(e.k) THEN e.ok /\ UNCHANGED vars ELSE /\ (~e.ok => ~ready)
                                                                        /\ cl' = (IF e.ok THEN Add(cl, e.k, Cl) ELSE cl) /\ UNCHANGED <<rm, own, nf, ready>>
    [] e.e = "ps" -> /\ cl' = (IF Stranger(e.k) THEN cl ELSE IF Target(e.k) THEN [cl EXCEPT ![own[e.k]].dn = @ \o e.d] ELSE [cl EXCEPT ![e.k].up = @ \o e.d])
                     /\ UNCHANGED <<rm, own, nf, ready>>
    (* one connection of the target per client, never more *)
    [] e.e = "ac" -> Cardinality(DOMAIN rm) + nf < Cardinality(DOMAIN cl) /\ rm' = Add(rm, e.k, Rm) /\ UNCHANGED <<cl, own, nf, ready>>
    [] e.e = "own" -> /\ e.c \in DOMAIN cl /\ cl[e.c].rk = 0 /\ ~Owned(e.k)
                      /\ own' = Add(own, e.k, e.c) /\ cl' = [cl EXCEPT ![e.c].rk = e.k] /\ UNCHANGED <<rm, nf, ready>>
    (* a connection to the target failed *)
    [] e.e = "nf" -> nf' = nf + 1 /\ UNCHANGED <<cl, rm, own, ready>>
    (* what one side sent reaches the other, unchanged, in order, once *)
    [] e.e = "pr" -> IF Stranger(e.k) THEN UNCHANGED vars
                     ELSE IF Target(e.k) THEN Owned(e.k) /\ IsPre(e.d, cl[own[e.k]].up) /\ cl' = [cl EXCEPT ![own[e.k]].up = Drop(@, e.n)] /\ UNCHANGED <<rm, own, nf, ready>>
                     ELSE IsPre(e.d, cl[e.k].dn) /\ cl' = [cl EXCEPT ![e.k].dn = Drop(@, e.n)] /\ UNCHANGED <<rm, own, nf, ready>>
    (* a side sees the end only when the other one ended or there is no other one; and then it has everything that was sent *)
    (* before, unless data was under way in the other direction to an end that had gone                                  *)
    [] e.e \in {"pe", "px"} ->
         IF Stranger(e.k) THEN UNCHANGED vars
         ELSE IF Target(e.k)
         THEN LET m == rm[e.k] IN
              /\ IF m.fin # "no" THEN TRUE
                 ELSE IF Owned(e.k) THEN LET c == cl[own[e.k]] IN c.fin # "no" /\ (c.un \/ c.dn # <<>> \/ c.up = <<>>)
                 ELSE \E k \in Alone : cl[k].fin # "no"
              /\ rm' = [rm EXCEPT ![e.k].eof = TRUE] /\ UNCHANGED <<cl, own, nf, ready>>
         ELSE LET c == cl[e.k] IN
              /\ IF c.fin # "no" THEN nf' = nf
                 ELSE IF c.rk # 0 THEN LET m == rm[c.rk] IN nf' = nf /\ m.fin # "no" /\ (m.un \/ c.up # <<>> \/ c.dn = <<>>)
                 ELSE IF c.early THEN nf' = nf
                 ELSE IF \E r \in Loose : rm[r].fin # "no" THEN nf' = nf
                 ELSE nf > 0 /\ nf' = nf
              /\ cl' = [cl EXCEPT ![e.k].eof = TRUE] /\ UNCHANGED <<rm, own, ready>>
    [] e.e \in {"pc", "prst"} -> LET un == e.e = "prst" \/ (IF Has(e, "un") THEN e.un > 0 ELSE FALSE) IN
              /\ cl' = (IF Stranger(e.k) \/ Target(e.k) THEN cl ELSE [cl EXCEPT ![e.k].fin = "gone", ![e.k].un = @ \/ un])
              /\ rm' = (IF Target(e.k) THEN [rm EXCEPT ![e.k].fin = "gone", ![e.k].un = @ \/ un] ELSE rm) /\ UNCHANGED <<own, nf, ready>>
    [] e.e = "ph" -> /\ cl' = (IF Stranger(e.k) \/ Target(e.k) THEN cl ELSE [cl EXCEPT ![e.k].fin = IF @ = "no" THEN "half" ELSE @])
                     /\ rm' = (IF Target(e.k) THEN [rm EXCEPT ![e.k].fin = IF @ = "no" THEN "half" ELSE @] ELSE rm) /\ UNCHANGED <<own, nf, ready>>
    (* nothing moves any more; a client is without connection only for a reason of its own *)
    [] e.e = "quiet" -> /\ \A k \in DOMAIN cl : QuietClient(k)
                        /\ \A r \in DOMAIN rm : QuietTarget(r)
                        /\ Cardinality({k \in Alone : cl[k].eof /\ cl[k].fin = "no" /\ ~cl[k].early}) <= nf + Cardinality({r \in Loose : rm[r].fin # "no"})
                        /\ UNCHANGED vars
    [] e.e = "fin" -> UNCHANGED vars
    [] OTHER -> FALSE
Next == l <= Len(Traces[tr].ev) /\ l' = l + 1 /\ tr' = tr /\ Step(Traces[tr].ev[l])
Progress == Reached(tr, l)
============================================================================
