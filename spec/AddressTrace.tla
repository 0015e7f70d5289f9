--------------------------- MODULE AddressTrace ---------------------------
(* Addresses as values <<b1, b2, b3, b4, port>>.                          *)
EXTENDS TraceBase
VARIABLES tr, l, as
Text(b) == ToString(b[1]) \o "." \o ToString(b[2]) \o "." \o ToString(b[3]) \o "." \o ToString(b[4])
Shows(o, b, port) == /\ o.ip = Text(b) /\ o.port = port /\ o.n = b
                     /\ o.np = <<port \div 256, port % 256>> /\ o.fam = 2
Val(b, port) == <<b, port>>
Lo == <<127, 0, 0, 1>>
Init == tr \in 1..NT /\ l = 1 /\ as = <<>>
Step(e) ==
  \/ e.e = "text" /\ Shows(e.o, e.b, e.port) /\ as' = Append(as, Val(e.b, e.port))
  \/ e.e = "scope" /\ LET b == IF e.lo THEN Lo ELSE <<0, 0, 0, 0>> IN Shows(e.o, b, e.port) /\ as' = Append(as, Val(b, e.port))
  \/ e.e = "copy" /\ LET v == as[e.from + 1] IN Shows(e.o, v[1], v[2]) /\ as' = Append(as, v)
  \/ e.e = "conn" /\ Shows(e.peer_c, Lo, e.port) /\ Shows(e.self_c, Lo, e.cport)
                  /\ Shows(e.peer_d, Lo, e.cport) /\ Shows(e.self_d, Lo, e.port)
                  /\ as' = as \o <<Val(Lo, e.port), Val(Lo, e.cport), Val(Lo, e.cport), Val(Lo, e.port)>>
  (* equality, a strict order consistent with it, and equal hashes for equal addresses *)
  \/ e.e = "cmp" /\ LET same == as[e.i + 1] = as[e.j + 1]
                    IN /\ e.eq = same /\ (same => ~e.lt /\ ~e.gt /\ e.h) /\ (~same => e.lt # e.gt)
                 /\ as' = as
  \/ e.e = "fin" /\ as' = as
Next == /\ l <= Len(Traces[tr].ev) /\ l' = l + 1 /\ tr' = tr /\ Step(Traces[tr].ev[l])
Progress == Reached(tr, l)
===========================================================================
