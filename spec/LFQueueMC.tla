---------------------------- MODULE LFQueueMC ----------------------------
(* Design model of the lock-free queue at the granularity of its atomic    *)
(* operations (each labelled step is one atomic access), for NP producers  *)
(* and NC consumers running N operations each, with the abstract queue of   *)
(* LFQueue.tla as a history variable updated at the linearization points.   *)
EXTENDS Naturals, Integers, Sequences, FiniteSets
CONSTANTS Q, NP, NC, N, Start
VARIABLES wi, ri, mi, slot, pc, w, r, m, val, left, abs, okPush, okPop, emptyOK, fullOK, got
vars == <<wi, ri, mi, slot, pc, w, r, m, val, left, abs, okPush, okPop, emptyOK, fullOK, got>>
Prod == 1..NP
Cons == (NP + 1)..(NP + NC)
Thr == Prod \cup Cons
Init == /\ wi = Start /\ ri = Start /\ mi = Start /\ slot = [i \in 0..Q-1 |-> 0]
        /\ pc = [t \in Thr |-> "idle"] /\ w = [t \in Thr |-> 0] /\ r = [t \in Thr |-> 0] /\ m = [t \in Thr |-> 0]
        /\ val = [t \in Thr |-> 0] /\ left = [t \in Thr |-> N] /\ abs = <<>> /\ okPush = {} /\ okPop = <<>>
        /\ emptyOK = [t \in Thr |-> FALSE] /\ fullOK = [t \in Thr |-> FALSE] /\ got = {}
\* the abstract queue holds every reserved value in reservation order; the first mi-ri are available
Avail == mi - ri
Obs(pcx) == \* what a pending operation may have observed at some moment of its interval
   /\ emptyOK' = [t \in Thr |-> IF pcx[t] = "idle" THEN FALSE ELSE emptyOK[t] \/ (mi' - ri' = 0)]
   /\ fullOK'  = [t \in Thr |-> IF pcx[t] = "idle" THEN FALSE ELSE fullOK[t] \/ (wi' - ri' >= Q - 1)]
Go(t, to) == pc' = [pc EXCEPT ![t] = to]
Begin(t) == /\ pc[t] = "idle" /\ left[t] > 0
            /\ val' = [val EXCEPT ![t] = t * 10 + left[t]] /\ left' = [left EXCEPT ![t] = @ - 1]
            /\ Go(t, IF t \in Prod THEN "p_w" ELSE "c_r")
            /\ UNCHANGED <<wi, ri, mi, slot, w, r, m, abs, okPush, okPop, got>>
P_w(t) == pc[t] = "p_w" /\ w' = [w EXCEPT ![t] = wi] /\ Go(t, "p_r") /\ UNCHANGED <<wi, ri, mi, slot, r, m, val, left, abs, okPush, okPop, got>>
P_r(t) == pc[t] = "p_r" /\ r' = [r EXCEPT ![t] = ri] /\ Go(t, IF (w[t] + 1) % Q = ri % Q THEN "p_f" ELSE "p_c")
          /\ UNCHANGED <<wi, ri, mi, slot, w, m, val, left, abs, okPush, okPop, got>>
P_f(t) == /\ pc[t] = "p_f"
          /\ IF wi = w[t] THEN Go(t, "p_fail") ELSE Go(t, "p_c")
          /\ UNCHANGED <<wi, ri, mi, slot, w, r, m, val, left, abs, okPush, okPop, got>>
P_fail(t) == /\ pc[t] = "p_fail" /\ Go(t, "idle") /\ UNCHANGED <<wi, ri, mi, slot, w, r, m, val, left, abs, okPush, okPop, got>>
P_c(t) == /\ pc[t] = "p_c"
          /\ IF wi = w[t] THEN wi' = wi + 1 /\ Go(t, "p_s") /\ abs' = Append(abs, val[t])
             ELSE Go(t, "p_w") /\ UNCHANGED <<wi, abs>>
          /\ UNCHANGED <<ri, mi, slot, w, r, m, val, left, okPush, okPop, got>>
P_s(t) == /\ pc[t] = "p_s" /\ slot' = [slot EXCEPT ![w[t] % Q] = val[t]] /\ Go(t, "p_m")
          /\ UNCHANGED <<wi, ri, mi, w, r, m, val, left, abs, okPush, okPop, got>>
P_m(t) == /\ pc[t] = "p_m" /\ mi = w[t] /\ mi' = mi + 1 /\ okPush' = okPush \cup {val[t]} /\ Go(t, "idle")
          /\ UNCHANGED <<wi, ri, slot, w, r, m, val, left, abs, okPop, got>>
C_r(t) == pc[t] = "c_r" /\ r' = [r EXCEPT ![t] = ri] /\ Go(t, "c_m") /\ UNCHANGED <<wi, ri, mi, slot, w, m, val, left, abs, okPush, okPop, got>>
C_m(t) == /\ pc[t] = "c_m" /\ m' = [m EXCEPT ![t] = mi] /\ Go(t, IF r[t] = mi THEN "c_fail" ELSE "c_d")
          /\ UNCHANGED <<wi, ri, mi, slot, w, r, val, left, abs, okPush, okPop, got>>
C_fail(t) == pc[t] = "c_fail" /\ Go(t, "idle") /\ UNCHANGED <<wi, ri, mi, slot, w, r, m, val, left, abs, okPush, okPop, got>>
C_d(t) == pc[t] = "c_d" /\ val' = [val EXCEPT ![t] = slot[r[t] % Q]] /\ Go(t, "c_c") /\ UNCHANGED <<wi, ri, mi, slot, w, r, m, left, abs, okPush, okPop, got>>
C_c(t) == /\ pc[t] = "c_c"
          /\ IF ri = r[t] THEN /\ ri' = ri + 1 /\ Go(t, "idle") /\ okPop' = Append(okPop, <<val[t], Head(abs)>>) /\ abs' = Tail(abs) /\ got' = got \cup {val[t]}
             ELSE Go(t, "c_r") /\ UNCHANGED <<ri, okPop, abs, got>>
          /\ UNCHANGED <<wi, mi, slot, w, r, m, val, left, okPush>>
Step(t) == Begin(t) \/ P_w(t) \/ P_r(t) \/ P_f(t) \/ P_fail(t) \/ P_c(t) \/ P_s(t) \/ P_m(t) \/ C_r(t) \/ C_m(t) \/ C_fail(t) \/ C_d(t) \/ C_c(t)
Next == \E t \in Thr : Step(t) /\ Obs(pc')
Spec == Init /\ [][Next]_vars
\* every pop returns the head of the abstract queue: FIFO, no loss, duplication or invention
PopsHead == \A i \in 1..Len(okPop) : okPop[i][1] = okPop[i][2]
Bounded == wi - ri <= Q - 1 /\ mi <= wi /\ ri <= mi /\ Len(abs) = wi - ri
FailOK == \A t \in Thr : (pc[t] = "p_fail" => fullOK[t]) /\ (pc[t] = "c_fail" => emptyOK[t])
ViewKey == <<wi, ri, mi, slot, pc, w, r, m, val, left, abs, okPop, emptyOK, fullOK>>
==========================================================================
