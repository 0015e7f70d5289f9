---------------------------- MODULE PeriodTrace ----------------------------
(* Samples <<value, time>>; a query covers exactly those not older than    *)
(* the period.  Concurrent calls take effect at one instant each.          *)
EXTENDS TraceBase, SequencesExt
VARIABLES tr, l, s, pend
Per == Traces[tr].cfg.per
Idle == [op |-> "none", v |-> 0, at |-> 0, st |-> "idle", s |-> 0, c |-> 0]
Threads == 0..7
(* runs of equal samples are kept as [v, n, at]; lo..hi bounds the sample time *)
In(x, t) == x.hi >= t - Per
Sum(t) == FoldLeft(LAMBDA a, x : IF In(x, t) THEN a + x.v * x.n ELSE a, 0, s)
Cnt(t) == FoldLeft(LAMBDA a, x : IF In(x, t) THEN a + x.n ELSE a, 0, s)
Kept(t) == SelectSeq(s, LAMBDA x : In(x, t))     \* a query drops what expired (times never go back)
Init == tr \in 1..NT /\ l = 1 /\ s = <<>> /\ pend = [t \in Threads |-> Idle]
         /\ Traces[tr].cfg.per = Traces[tr].cfg.want
Smp(v, n, a, b) == [v |-> v, n |-> n, lo |-> a, hi |-> b]
(* two samples close to the edge may be counted either way when the clock moved during the call *)
Step(e) ==
  \/ e.e = "sample" /\ s' = Append(s, Smp(e.v, e.n, e.at, e.at)) /\ pend' = pend
  \/ e.e = "sum" /\ e.s = Sum(e.at) /\ e.c = Cnt(e.at) /\ e.tot = e.c /\ s' = Kept(e.at) /\ pend' = pend
  \/ e.e = "sample2" /\ \E a \in e.a .. e.b : s' = Append(s, Smp(e.v, 1, a, a)) /\ pend' = pend
  \/ e.e = "sum2" /\ (\E t \in e.a .. e.b : e.s = Sum(t) /\ e.c = Cnt(t)) /\ UNCHANGED <<s, pend>>
  \/ e.e = "inv" /\ pend[e.t].op = "none" /\ pend' = [pend EXCEPT ![e.t] = [Idle EXCEPT !.op = e.op, !.v = e.v, !.at = e.at, !.st = "inv"]] /\ s' = s
  (* the number of samples still held: all inside the window, maybe some which expired *)
  \/ e.e = "res" /\ pend[e.t].st = "ok"
     /\ (IF pend[e.t].op = "tot" THEN pend[e.t].s <= e.c /\ e.c <= pend[e.t].c ELSE pend[e.t].s = e.s /\ pend[e.t].c = e.c) /\ pend' = [pend EXCEPT ![e.t] = Idle] /\ s' = s
  \/ e.e = "fin" /\ UNCHANGED <<s, pend>>
Act == /\ l <= Len(Traces[tr].ev) /\ l' = l + 1 /\ tr' = tr /\ Step(Traces[tr].ev[l])
Tau == /\ l <= Len(Traces[tr].ev) /\ Traces[tr].ev[l].e = "res" /\ UNCHANGED <<tr, l>>
       /\ \E t \in Threads : LET p == pend[t] IN p.st = "inv" /\
          \/ p.op = "push" /\ s' = Append(s, Smp(p.v, 1, p.at, p.at)) /\ pend' = [pend EXCEPT ![t].st = "ok"]
          \/ p.op = "tot" /\ s' = s /\ pend' = [pend EXCEPT ![t].st = "ok", ![t].s = Cnt(p.at), ![t].c = FoldLeft(LAMBDA a, x : a + x.n, 0, s)]
          \/ p.op = "sum" /\ s' = Kept(p.at) /\ pend' = [pend EXCEPT ![t].st = "ok", ![t].s = Sum(p.at), ![t].c = Cnt(p.at)]
Next == Act \/ Tau
Progress == Reached(tr, l)
============================================================================
