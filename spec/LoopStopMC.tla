---------------------------- MODULE LoopStopMC ----------------------------
(* Design model of the stop request: stoppers set the quit flag and touch   *)
(* the inner pipe under the loop's lock; the loop publishes the pipe under  *)
(* the lock, checks the flag after the poll and after the dispatch, and     *)
(* withdraws the pipe under the lock before it goes out of scope.           *)
EXTENDS Naturals, FiniteSets
CONSTANTS P,      \* stop requests, one per thread
          E       \* other events that wake the loop
VARIABLES lock, quit, pipe, touched, bytes, alive, lpc, spc, ev, crash
vars == <<lock, quit, pipe, touched, bytes, alive, lpc, spc, ev, crash>>
Sts == 1..P
Init == lock = 0 /\ quit = FALSE /\ pipe = FALSE /\ touched = FALSE /\ bytes = 0 /\ alive = FALSE /\ lpc = "new" /\ spc = [s \in Sts |-> "idle"] /\ ev = E /\ crash = FALSE
L(from, to) == lpc = from /\ lpc' = to
(* the loop *)
Make == L("new", "lock1") /\ alive' = TRUE /\ bytes' = 0 /\ UNCHANGED <<lock, quit, pipe, touched, spc, ev, crash>>
Lock1 == lock = 0 /\ lpc = "lock1" /\ lock' = 99 /\ lpc' = "pub" /\ UNCHANGED <<quit, pipe, touched, bytes, alive, spc, ev, crash>>
Pub == /\ lpc = "pub" /\ lock' = 0 /\ (IF quit THEN lpc' = "free" /\ pipe' = pipe ELSE lpc' = "poll" /\ pipe' = TRUE) /\ UNCHANGED <<quit, touched, bytes, alive, spc, ev, crash>>
Poll == /\ lpc = "poll" /\ (bytes > 0 \/ ev > 0) /\ (IF quit THEN lpc' = "lock2" ELSE IF bytes > 0 THEN lpc' = "read" ELSE lpc' = "cb")
        /\ ev' = (IF bytes > 0 THEN ev ELSE ev - 1) /\ UNCHANGED <<lock, quit, pipe, touched, bytes, alive, spc, crash>>
Read == L("read", "untouch") /\ bytes' = 0 /\ UNCHANGED <<lock, quit, pipe, touched, alive, spc, ev, crash>>
Untouch == L("untouch", "after") /\ touched' = FALSE /\ UNCHANGED <<lock, quit, pipe, bytes, alive, spc, ev, crash>>
Callback == L("cb", "after") /\ UNCHANGED <<lock, quit, pipe, touched, bytes, alive, spc, ev, crash>>
After == lpc = "after" /\ lpc' = (IF quit THEN "lock2" ELSE "poll") /\ UNCHANGED <<lock, quit, pipe, touched, bytes, alive, spc, ev, crash>>
Lock2 == lock = 0 /\ lpc = "lock2" /\ lock' = 99 /\ lpc' = "unpub" /\ UNCHANGED <<quit, pipe, touched, bytes, alive, spc, ev, crash>>
Unpub == L("unpub", "free") /\ pipe' = FALSE /\ lock' = 0 /\ UNCHANGED <<quit, touched, bytes, alive, spc, ev, crash>>
Free == L("free", "end") /\ alive' = FALSE /\ UNCHANGED <<lock, quit, pipe, touched, bytes, spc, ev, crash>>
Loop == Make \/ Lock1 \/ Pub \/ Poll \/ Read \/ Untouch \/ Callback \/ After \/ Lock2 \/ Unpub \/ Free
(* a stopper *)
S(s, from, to) == spc[s] = from /\ spc' = [spc EXCEPT ![s] = to]
Ask(s) == S(s, "idle", "flag") /\ lock = 0 /\ lock' = s /\ UNCHANGED <<quit, pipe, touched, bytes, alive, lpc, ev, crash>>
Flag(s) == S(s, "flag", "look") /\ quit' = TRUE /\ UNCHANGED <<lock, pipe, touched, bytes, alive, lpc, ev, crash>>
Look(s) == /\ spc[s] = "look" /\ spc' = [spc EXCEPT ![s] = IF pipe THEN "xchg" ELSE "out"] /\ UNCHANGED <<lock, quit, pipe, touched, bytes, alive, lpc, ev, crash>>
Xchg(s) == /\ spc[s] = "xchg" /\ spc' = [spc EXCEPT ![s] = IF touched THEN "out" ELSE "write"] /\ touched' = TRUE /\ UNCHANGED <<lock, quit, pipe, bytes, alive, lpc, ev, crash>>
Write(s) == S(s, "write", "out") /\ bytes' = bytes + 1 /\ crash' = (crash \/ ~alive) /\ UNCHANGED <<lock, quit, pipe, touched, alive, lpc, ev>>
Out(s) == S(s, "out", "done") /\ lock' = 0 /\ UNCHANGED <<quit, pipe, touched, bytes, alive, lpc, ev, crash>>
Stop(s) == Ask(s) \/ Flag(s) \/ Look(s) \/ Xchg(s) \/ Write(s) \/ Out(s)
Next == Loop \/ \E s \in Sts : Stop(s)
Spec == Init /\ [][Next]_vars /\ SF_vars(Lock1) /\ SF_vars(Lock2) /\ WF_vars(Loop) /\ \A s \in Sts : SF_vars(Ask(s)) /\ WF_vars(Flag(s) \/ Look(s) \/ Xchg(s) \/ Write(s) \/ Out(s))
NoUseAfterEnd == ~crash
(* a completed request and a loop about to sleep: something will wake it *)
NoSleep == lpc = "poll" /\ ev = 0 /\ (\E s \in Sts : spc[s] = "done") /\ (\A s \in Sts : spc[s] \in {"done", "idle"}) => bytes > 0
Ends == (\E s \in Sts : spc[s] = "done") ~> (lpc = "end")
OnlyAsked == lpc \in {"lock2", "unpub", "free", "end"} => quit
============================================================================
