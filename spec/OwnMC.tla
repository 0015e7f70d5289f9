------------------------------- MODULE OwnMC -------------------------------
(* Who owns a message on its way to a worker.  A sender makes a copy, the  *)
(* bounded queue takes it over, or does not and then the sender frees it;  *)
(* the worker's loop takes it out and frees it after the callback; what    *)
(* nobody took is freed with the worker.  Every message is freed exactly   *)
(* once, nobody touches a freed one, and nothing is left at the end.       *)
EXTENDS Naturals, Sequences, FiniteSets
CONSTANTS Senders, PerSender, Cap
VARIABLES left, hand, q, work, st, freed
vars == <<left, hand, q, work, st, freed>>
Ids == Senders \X (1..PerSender)
None == <<"none", 0>>
Range(s) == {s[i] : i \in 1..Len(s)}
Init == /\ left = [s \in Senders |-> PerSender] /\ hand = [s \in Senders |-> None]
        /\ q = <<>> /\ work = None /\ st = "run" /\ freed = [m \in Ids |-> 0]
Free(m) == freed' = [freed EXCEPT ![m] = @ + 1]
Make(s) == /\ left[s] > 0 /\ hand[s] = None /\ st # "gone"
           /\ hand' = [hand EXCEPT ![s] = <<s, left[s]>>] /\ left' = [left EXCEPT ![s] = @ - 1]
           /\ UNCHANGED <<q, work, st, freed>>
Push(s) == /\ hand[s] # None /\ Len(q) < Cap
           /\ q' = Append(q, hand[s]) /\ hand' = [hand EXCEPT ![s] = None] /\ UNCHANGED <<left, work, st, freed>>
Refuse(s) == /\ hand[s] # None /\ Len(q) = Cap
             /\ Free(hand[s]) /\ hand' = [hand EXCEPT ![s] = None] /\ UNCHANGED <<left, q, work, st>>
Take == /\ st \in {"run", "stopping"} /\ work = None /\ q # <<>>
        /\ work' = Head(q) /\ q' = Tail(q) /\ UNCHANGED <<left, hand, st, freed>>
Handled == /\ work # None /\ Free(work) /\ work' = None /\ UNCHANGED <<left, hand, q, st>>
Stop == st = "run" /\ st' = "stopping" /\ UNCHANGED <<left, hand, q, work, freed>>
Ended == st = "stopping" /\ work = None /\ st' = "ended" /\ UNCHANGED <<left, hand, q, work, freed>>
(* the user destroys the worker when nobody sends any more *)
Destroy == /\ st = "ended" /\ \A s \in Senders : hand[s] = None
           /\ st' = "gone" /\ q' = <<>>
           /\ freed' = [m \in Ids |-> freed[m] + (IF m \in Range(q) THEN 1 ELSE 0)]
           /\ UNCHANGED <<left, hand, work>>
Next == \/ \E s \in Senders : Make(s) \/ Push(s) \/ Refuse(s)
        \/ Take \/ Handled \/ Stop \/ Ended \/ Destroy
Live(m) == m \in Range(q) \/ m = work \/ \E s \in Senders : hand[s] = m
Made(m) == m[2] > left[m[1]]
Once == \A m \in Ids : freed[m] <= 1
NoUseAfterFree == \A m \in Ids : Live(m) => freed[m] = 0
NothingLost == \A m \in Ids : Made(m) => Live(m) \/ freed[m] = 1
AllBack == st = "gone" => \A m \in Ids : Made(m) => freed[m] = 1
============================================================================
