---------------------------- MODULE PacketTrace ----------------------------
(* Packets as values [id, content, user head]; a ring buffer and a pipe    *)
(* carry the byte stream of their wire images.                             *)
EXTENDS TraceBase, Runs
VARIABLES tr, l, slot, wire, fed, pw
HeadSz == Traces[tr].cfg.head
None == [some |-> FALSE, id |-> 0, c |-> <<>>, uh |-> <<>>]
Pk(id, c, uh) == [some |-> TRUE, id |-> id, c |-> c, uh |-> uh]
Shows(o, p) ==
  IF ~p.some THEN o.id = 0 /\ o.n = 0 /\ o.m = 0
  ELSE LET n == RLen(p.c) IN
       /\ o.id = p.id /\ o.n = n /\ o.m = HeadSz + n
       /\ o.w = <<n \div 256, n % 256, p.id \div 256, p.id % 256>>
       /\ o.uh = p.uh /\ o.c = p.c
Size(p) == HeadSz + RLen(p.c)
Init == tr \in 1..NT /\ l = 1 /\ slot = [i \in 0..2 |-> None] /\ wire = <<>> /\ fed = 0 /\ pw = <<>>
Same == UNCHANGED <<wire, fed, pw>>
Set(i, p) == slot' = [slot EXCEPT ![i] = p]
Step(e) ==
  \/ e.e = "mem" /\ LET p == Pk(e.id, RAppend(RAppend(<<>>, e.b1, e.n1), e.b2, e.n2), RAppend(<<>>, e.bu, HeadSz - 4))
                    IN Shows(e.o, p) /\ Set(e.p, p) /\ Same
  \/ e.e = "copy" /\ Shows(e.o, slot[e.from]) /\ Set(e.p, slot[e.from]) /\ Same
  \/ e.e = "scribble" /\ Set(e.p, [slot[e.p] EXCEPT !.c = RAppend(<<>>, e.b, RLen(@))]) /\ Same
  \/ e.e = "see" /\ Shows(e.o, slot[e.p]) /\ Same /\ slot' = slot
  \/ e.e = "clean" /\ Shows(e.o, None) /\ Set(e.p, None) /\ Same
  \/ e.e = "send" /\ wire' = Append(wire, slot[e.p]) /\ UNCHANGED <<slot, fed, pw>>
  \/ e.e = "feed" /\ fed' = fed + e.n /\ UNCHANGED <<slot, wire, pw>>
  (* a packet is available exactly when all its bytes have arrived *)
  \/ e.e = "parse" /\ e.r = (wire # <<>> /\ fed >= Size(wire[1]))
     /\ IF e.r THEN /\ Shows(e.o, wire[1]) /\ e.left = fed - Size(wire[1])
                    /\ Set(e.p, wire[1]) /\ wire' = Tail(wire) /\ fed' = e.left /\ pw' = pw
        ELSE e.left = fed /\ Set(e.p, None) /\ Same
  \/ e.e = "psend" /\ pw' = Append(pw, slot[e.p]) /\ UNCHANGED <<slot, wire, fed>>
  \/ e.e = "pparse" /\ e.r = (pw # <<>>)
     /\ IF e.r THEN Shows(e.o, pw[1]) /\ Set(e.p, pw[1]) /\ pw' = Tail(pw) /\ UNCHANGED <<wire, fed>>
        ELSE Set(e.p, None) /\ Same
  \/ e.e = "fin" /\ Same /\ slot' = slot
Next == /\ l <= Len(Traces[tr].ev) /\ l' = l + 1 /\ tr' = tr /\ Step(Traces[tr].ev[l])
Progress == Reached(tr, l)
============================================================================
