---------------------------- MODULE MinMaxTrace ----------------------------
(* Running minimum and maximum (Unset until the first value) and a single  *)
(* cell with conditional exchanges.  An update takes effect on the minimum *)
(* and on the maximum at one instant each.                                 *)
EXTENDS TraceBase
VARIABLES tr, l, mn, mx, cell, pend
Unset == 999999
C == Traces[tr].cfg
Threads == 0..7
Idle == [op |-> "none", v |-> 0, w |-> 0, a |-> FALSE, b |-> FALSE, r |-> 0, ok |-> TRUE]
Init == tr \in 1..NT /\ l = 1 /\ pend = [t \in Threads |-> Idle] /\ cell = C.at
        /\ mn = (IF C.has THEN C.init ELSE Unset) /\ mx = mn
Lower(v) == IF mn = Unset THEN v ELSE Min2(mn, v)
Upper(v) == IF mx = Unset THEN v ELSE Max2(mx, v)
Step(e) ==
  \/ e.e = "inv" /\ pend[e.t].op = "none" /\ pend' = [pend EXCEPT ![e.t] = [Idle EXCEPT !.op = e.op, !.v = e.v, !.w = e.w]] /\ UNCHANGED <<mn, mx, cell>>
  \/ e.e = "res" /\ LET p == pend[e.t] IN p.op # "none" /\ p.a /\ p.b /\ p.r = e.r /\ p.ok = e.ok
     /\ pend' = [pend EXCEPT ![e.t] = Idle] /\ UNCHANGED <<mn, mx, cell>>
  \/ e.e = "mm" /\ e.min = mn /\ e.max = mx /\ UNCHANGED <<mn, mx, cell, pend>>
  \/ e.e = "final" /\ e.at = cell /\ UNCHANGED <<mn, mx, cell, pend>>
  \/ e.e = "fin" /\ UNCHANGED <<mn, mx, cell, pend>>
Act == /\ l <= Len(Traces[tr].ev) /\ l' = l + 1 /\ tr' = tr /\ Step(Traces[tr].ev[l])
Tau == /\ l <= Len(Traces[tr].ev) /\ Traces[tr].ev[l].e = "res" /\ UNCHANGED <<tr, l>>
       /\ \E t \in Threads : LET p == pend[t] IN
          \/ p.op = "upd" /\ ~p.a /\ mn' = Lower(p.v) /\ pend' = [pend EXCEPT ![t].a = TRUE] /\ UNCHANGED <<mx, cell>>
          \/ p.op = "upd" /\ ~p.b /\ mx' = Upper(p.v) /\ pend' = [pend EXCEPT ![t].b = TRUE] /\ UNCHANGED <<mn, cell>>
          \/ p.op = "min" /\ ~p.a /\ pend' = [pend EXCEPT ![t].a = TRUE, ![t].b = TRUE, ![t].r = mn] /\ UNCHANGED <<mn, mx, cell>>
          \/ p.op = "max" /\ ~p.a /\ pend' = [pend EXCEPT ![t].a = TRUE, ![t].b = TRUE, ![t].r = mx] /\ UNCHANGED <<mn, mx, cell>>
          \/ p.op \in {"gx", "sx"} /\ ~p.a
             /\ LET y == IF p.op = "gx" THEN p.v > cell ELSE p.v < cell
                IN cell' = (IF y THEN p.w ELSE cell) /\ pend' = [pend EXCEPT ![t].a = TRUE, ![t].b = TRUE, ![t].ok = y]
             /\ UNCHANGED <<mn, mx>>
Next == Act \/ Tau
Progress == Reached(tr, l)
============================================================================
