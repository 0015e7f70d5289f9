------------------------------ MODULE SyncMC ------------------------------
(* Design model of the auto-reset signal: a mutex, a condition variable and *)
(* the "lit" bit.  wait and timed wait loop on the condition (spurious      *)
(* wakeups included), notify sets the bit and wakes one waiter.             *)
EXTENDS Naturals, FiniteSets
CONSTANTS Notifiers, Waiters, Timed, K     \* thread sets and notifications per notifier; waiters wait once more than ...
VARIABLES own, lit, cond, woken, pc, left, nots, oks, tos
vars == <<own, lit, cond, woken, pc, left, nots, oks, tos>>
Thr == Notifiers \cup Waiters \cup Timed
None == 0
Init == own = None /\ lit = FALSE /\ cond = {} /\ woken = {} /\ pc = [t \in Thr |-> "idle"]
        /\ left = [t \in Thr |-> K] /\ nots = 0 /\ oks = 0 /\ tos = 0
Go(t, p) == pc' = [pc EXCEPT ![t] = p]
Begin(t) == pc[t] = "idle" /\ left[t] > 0 /\ left' = [left EXCEPT ![t] = @ - 1] /\ Go(t, "lock") /\ UNCHANGED <<own, lit, cond, woken, nots, oks, tos>>
Lock(t) == pc[t] = "lock" /\ own = None /\ own' = t /\ Go(t, IF t \in Notifiers THEN "set" ELSE "test") /\ UNCHANGED <<lit, cond, woken, left, nots, oks, tos>>
Set(t) == pc[t] = "set" /\ lit' = TRUE /\ nots' = nots + 1 /\ Go(t, "signal") /\ UNCHANGED <<own, cond, woken, left, oks, tos>>
Signal(t) == /\ pc[t] = "signal" /\ Go(t, "unlock")
             /\ IF cond = {} THEN UNCHANGED <<cond, woken>> ELSE \E w \in cond : cond' = cond \ {w} /\ woken' = woken \cup {w}
             /\ UNCHANGED <<own, lit, left, nots, oks, tos>>
Test(t) == /\ pc[t] = "test"
           /\ IF lit THEN lit' = FALSE /\ oks' = oks + 1 /\ Go(t, "unlock") /\ UNCHANGED <<own, cond>>
              ELSE own' = None /\ cond' = cond \cup {t} /\ Go(t, "cwait") /\ UNCHANGED <<lit, oks>>
           /\ UNCHANGED <<woken, left, nots, tos>>
Woken(t) == /\ pc[t] = "cwait" /\ t \in woken /\ own = None /\ own' = t /\ woken' = woken \ {t} /\ Go(t, "test") /\ UNCHANGED <<lit, cond, left, nots, oks, tos>>
Spurious(t) == /\ pc[t] = "cwait" /\ t \in cond /\ own = None /\ own' = t /\ cond' = cond \ {t} /\ Go(t, "test") /\ UNCHANGED <<lit, woken, left, nots, oks, tos>>
(* a waiter whose time is over no longer takes a wakeup: fails, even when the bit has been set since *)
Timeout(t) == /\ pc[t] = "cwait" /\ t \in Timed \cap cond /\ own = None /\ own' = t /\ cond' = cond \ {t} /\ tos' = tos + 1 /\ Go(t, "unlock") /\ UNCHANGED <<lit, woken, left, nots, oks>>
Unlock(t) == pc[t] = "unlock" /\ own' = None /\ Go(t, "idle") /\ UNCHANGED <<lit, cond, woken, left, nots, oks, tos>>
Run(t) == Begin(t) \/ Lock(t) \/ Set(t) \/ Signal(t) \/ Test(t) \/ Woken(t) \/ Unlock(t)
Stuck == (\A t \in Thr : (pc[t] = "idle" /\ left[t] = 0) \/ (pc[t] = "cwait" /\ t \in cond)) /\ UNCHANGED vars
Next == Stuck \/ \E t \in Thr : Run(t) \/ Spurious(t) \/ Timeout(t)
Spec == Init /\ [][Next]_vars
FairSpec == Spec /\ \A t \in Thr : SF_vars(Lock(t)) /\ SF_vars(Woken(t)) /\ WF_vars(Begin(t) \/ Set(t) \/ Signal(t) \/ Test(t) \/ Unlock(t))
(* no wait succeeds without a notification of its own *)
NoInvention == oks <= nots
(* a set bit and a sleeping waiter: somebody is on the way *)
NoLostNotify == lit /\ cond # {} /\ own = None => woken # {} \/ \E t \in Thr : pc[t] \in {"lock", "unlock"}
Mutex == \A t, u \in Thr : pc[t] \in {"set", "signal", "test", "unlock"} /\ pc[u] \in {"set", "signal", "test", "unlock"} => t = u
(* in the end nobody sleeps on a set bit *)
EndOk == (\A t \in Thr : (pc[t] = "idle" /\ left[t] = 0) \/ (pc[t] = "cwait" /\ t \in cond)) => ~(lit /\ cond # {})
Served == \A t \in Waiters : (pc[t] = "cwait" /\ lit) ~> (~lit)
============================================================================
