----------------------------- MODULE OptTrace -----------------------------
(* Parses of generated command lines by the real CSimpleOpt, call by call. *)
EXTENDS TraceBase, Opt
VARIABLES tr, l, s
Blank == [tab |-> <<>>, fl |-> [exact |-> FALSE], files |-> <<>>, clump |-> <<>>, rest |-> <<>>]
Init == tr \in 1..NT /\ l = 1 /\ s = Blank
Agree(e, r) == /\ e.r = r.r
               /\ e.r => /\ e.err = r.err
                         /\ e.text = r.text
                         /\ e.err = 0 => (e.id = r.id /\ e.has = r.arg.has /\ e.arg = r.arg.a)
                         \* with the name of an unknown option, what was given to it
                         /\ e.err \in {-1, -2, -3, -4} => (e.has = r.arg.has /\ e.arg = r.arg.a)
Step(e) ==
  \/ e.e = "init" /\ e.r = (e.max = 0 \/ e.n <= e.max) /\ e.n = Len(e.args)
     /\ s' = IF e.r THEN Start(e.tab, e.fl, e.args) ELSE [Start(e.tab, e.fl, e.args) EXCEPT !.rest = <<>>]
  \/ e.e = "next" /\ LET x == Advance(s) IN Agree(e, x.res) /\ s' = x.st
  \/ e.e = "multi" /\ LET k == Take(s, e.n) IN
       (IF k >= 0 THEN e.ok /\ e.args = SubSeq(s.rest, 1, e.n) /\ s' = Drop(s, e.n)
        ELSE ~e.ok /\ e.err = k /\ s' = s)
  \/ e.e = "stop" /\ s' = Stopped(s)
  \/ e.e = "set" /\ s' = [s EXCEPT !.tab = e.tab, !.fl = [e.fl EXCEPT !.all = s.fl.all]]
  \/ e.e = "files" /\ e.args = s.files /\ s' = s
  \/ e.e = "fin" /\ s' = s
Next == /\ l <= Len(Traces[tr].ev) /\ l' = l + 1 /\ tr' = tr /\ Step(Traces[tr].ev[l])
Progress == Reached(tr, l)
============================================================================
