---------------------------- MODULE LedgerTrace ----------------------------
(* What an object took, it gives back.  A recording of any scenario ends    *)
(* with the ledger: when every object the user made has been destroyed, no  *)
(* block the library allocated may be lost ("live" counts the blocks that   *)
(* no object of static or thread-local storage leads to) and no thread the  *)
(* library made may be left.  Descriptors opened and not closed are in the  *)
(* ledger too.  Everything before it is accepted as it is, except abnormal  *)
(* ends; the other properties judge what happened.                          *)
EXTENDS TraceBase
VARIABLES tr, l
Bad == {"ub_double_free", "ub_heap_overflow", "ub_memcpy", "ub_write_after_free", "ub_file", "crash", "badfd", "deadlock", "livelock", "hang", "killed_sigpipe"}
Init == tr \in 1..NT /\ l = 1
Balanced(e) == e.live = 0 /\ e.threads = 0 /\ e.fds = 0
Step(e) ==
  IF l = Len(Traces[tr].ev) THEN e.e = "ledger" /\ Balanced(e)
  ELSE e.e # "ledger" /\ e.e \notin Bad
Next == /\ l <= Len(Traces[tr].ev) /\ l' = l + 1 /\ tr' = tr /\ Step(Traces[tr].ev[l])
Progress == Reached(tr, l)
============================================================================
