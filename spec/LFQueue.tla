----------------------------- MODULE LFQueue -----------------------------
(* Bounded FIFO for many producers and consumers.  A push takes its place *)
(* in the order at one instant (Reserve) and its element becomes available *)
(* at a later instant (Commit) of the same call, in order; a pop takes the *)
(* oldest available element at one instant.  A push may find no room only  *)
(* when the places taken fill the queue; a pop may find nothing only when  *)
(* no element is available.                                                *)
EXTENDS Naturals, Integers, Sequences, FiniteSets

(* q: sequence of [v, ok]; ok = TRUE once the element is available.        *)
(* pend: function from thread to [op, v, st], st in                        *)
(*   "inv" (nothing happened yet), "rsv", "ok", "fail"                     *)
CONSTANT NoOp
AvailAt(q)  == IF q = <<>> THEN FALSE ELSE q[1].ok
Full(q, Q)  == Len(q) >= Q - 1
Room(q, Q)  == Len(q) < Q

CommitIdx(q, v) == CHOOSE i \in 1..Len(q) : q[i].v = v
InOrder(q, v) == \A i \in 1..CommitIdx(q, v) - 1 : q[i].ok

(* the internal transitions of thread t: set of <<q', pend'>> *)
Internal(q, pend, t, Q) ==
  LET p == pend[t] IN
    IF p.op = "push" /\ p.st = "inv" THEN
       (IF Room(q, Q) THEN {<<Append(q, [v |-> p.v, ok |-> FALSE]), [pend EXCEPT ![t].st = "rsv"]>>} ELSE {})
       \cup (IF Full(q, Q) THEN {<<q, [pend EXCEPT ![t].st = "fail"]>>} ELSE {})
    ELSE IF p.op = "push" /\ p.st = "rsv" /\ InOrder(q, p.v) THEN
       {<<[q EXCEPT ![CommitIdx(q, p.v)].ok = TRUE], [pend EXCEPT ![t].st = "ok"]>>}
    ELSE IF p.op = "pop" /\ p.st = "inv" THEN
       (IF AvailAt(q) THEN {<<Tail(q), [pend EXCEPT ![t] = [op |-> "pop", v |-> q[1].v, st |-> "ok"]]>>} ELSE {})
       \cup (IF ~AvailAt(q) THEN {<<q, [pend EXCEPT ![t].st = "fail"]>>} ELSE {})
    ELSE {}

Responds(p, r, v) == IF r THEN p.st = "ok" /\ p.v = v ELSE p.st = "fail"
==========================================================================
