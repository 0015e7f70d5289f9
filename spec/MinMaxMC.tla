----------------------------- MODULE MinMaxMC -----------------------------
(* Design model of the compare-and-exchange loops behind MinMaxValue: read, *)
(* compare, weak exchange (may fail for no reason and then re-reads), for   *)
(* maximum and minimum, on values which start at the type's ends.           *)
EXTENDS Integers, Sequences, FiniteSets
CONSTANTS T, Vals, N, Lo, Hi
VS == {-3, 0, 4}
LoV == -9
VARIABLES mx, mn, pc, val, cur, left, done, seen
vars == <<mx, mn, pc, val, cur, left, done, seen>>
Thr == 1..T
Init == mx = Lo /\ mn = Hi /\ pc = [t \in Thr |-> "idle"] /\ val = [t \in Thr |-> 0] /\ cur = [t \in Thr |-> 0] /\ left = [t \in Thr |-> N] /\ done = {} /\ seen = {}
Go(t, p) == pc' = [pc EXCEPT ![t] = p]
Begin(t) == /\ pc[t] = "idle" /\ left[t] > 0 /\ \E v \in Vals : val' = [val EXCEPT ![t] = v] /\ seen' = seen \cup {v}
            /\ left' = [left EXCEPT ![t] = @ - 1] /\ Go(t, "ldmax") /\ UNCHANGED <<mx, mn, cur, done>>
LdMax(t) == pc[t] = "ldmax" /\ cur' = [cur EXCEPT ![t] = mx] /\ Go(t, "xmax") /\ UNCHANGED <<mx, mn, val, left, done, seen>>
XMax(t) == /\ pc[t] = "xmax"
           /\ \/ val[t] <= cur[t] /\ Go(t, "ldmin") /\ UNCHANGED <<mx, cur>>
              \/ val[t] > cur[t] /\ mx = cur[t] /\ mx' = val[t] /\ Go(t, "ldmin") /\ cur' = cur
              \/ val[t] > cur[t] /\ cur' = [cur EXCEPT ![t] = mx] /\ Go(t, "xmax") /\ mx' = mx
           /\ UNCHANGED <<mn, val, left, done, seen>>
LdMin(t) == pc[t] = "ldmin" /\ cur' = [cur EXCEPT ![t] = mn] /\ Go(t, "xmin") /\ UNCHANGED <<mx, mn, val, left, done, seen>>
XMin(t) == /\ pc[t] = "xmin"
           /\ \/ val[t] >= cur[t] /\ Go(t, "idle") /\ done' = done \cup {val[t]} /\ UNCHANGED <<mn, cur>>
              \/ val[t] < cur[t] /\ mn = cur[t] /\ mn' = val[t] /\ Go(t, "idle") /\ done' = done \cup {val[t]} /\ cur' = cur
              \/ val[t] < cur[t] /\ cur' = [cur EXCEPT ![t] = mn] /\ Go(t, "xmin") /\ UNCHANGED <<mn, done>>
           /\ UNCHANGED <<mx, val, left, seen>>
Next == \E t \in Thr : Begin(t) \/ LdMax(t) \/ XMax(t) \/ LdMin(t) \/ XMin(t)
Spec == Init /\ [][Next]_vars
(* every finished update is covered, and nothing is invented *)
Covers == \A v \in done : v <= mx /\ mn <= v
Real == mx \in seen \cup {Lo} /\ mn \in seen \cup {Hi}
Exact == (\A t \in Thr : pc[t] = "idle") /\ done # {} => (mx \in done /\ mn \in done /\ \A v \in done : mn <= v /\ v <= mx)
Monotone == [][mx' >= mx /\ mn' <= mn]_vars
============================================================================
