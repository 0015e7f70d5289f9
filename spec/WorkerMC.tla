----------------------------- MODULE WorkerMC -----------------------------
(* Design model of WorkThread's mailbox: senders push to the queue and     *)
(* then, if the flag says "drained", clear it and write one byte to the    *)
(* pipe; the worker sleeps on the pipe, reads a byte, sets the flag, pops   *)
(* until the queue is empty and looks at the pipe again.  A stop request   *)
(* sets the quit flag and touches the inner pipe; the loop looks at the    *)
(* quit flag after the poll and after each callback.                       *)
EXTENDS Naturals, Sequences, FiniteSets
CONSTANTS S,        \* number of senders
          B,        \* batches per sender
          N,        \* messages per batch
          Stopper,  \* is there a thread that asks for the end
          Early     \* the worker thread starts after sending may have begun
VARIABLES q, flag, pipe, inner, quit, spc, cnt, wpc, log, stopped
vars == <<q, flag, pipe, inner, quit, spc, cnt, wpc, log, stopped>>
Snd == 1..S
Init == /\ q = <<>> /\ flag = TRUE /\ pipe = 0 /\ inner = 0 /\ quit = FALSE
        /\ spc = [s \in Snd |-> "push"] /\ cnt = [s \in Snd |-> 0] /\ log = [s \in Snd |-> <<>>]
        /\ wpc = IF Early THEN "new" ELSE "sleep"
        /\ stopped = "no"
(* ---- a sender: one batch = N pushes and one wakeup *)
Push(s) == /\ spc[s] = "push" /\ cnt[s] < B * N
           /\ q' = Append(q, <<s, cnt[s]>>) /\ cnt' = [cnt EXCEPT ![s] = @ + 1]
           /\ spc' = [spc EXCEPT ![s] = IF (cnt[s] + 1) % N = 0 THEN "cas" ELSE "push"]
           /\ UNCHANGED <<flag, pipe, inner, quit, wpc, log, stopped>>
Cas(s) == /\ spc[s] = "cas" /\ flag' = FALSE /\ spc' = [spc EXCEPT ![s] = IF flag THEN "write" ELSE "push"]
          /\ UNCHANGED <<q, pipe, inner, quit, cnt, wpc, log, stopped>>
Write(s) == /\ spc[s] = "write" /\ pipe' = pipe + 1 /\ spc' = [spc EXCEPT ![s] = "push"]
            /\ UNCHANGED <<q, flag, inner, quit, cnt, wpc, log, stopped>>
(* ---- the worker *)
W(from, to) == wpc = from /\ wpc' = to
Boot == W("new", "sleep") /\ UNCHANGED <<q, flag, pipe, inner, quit, spc, cnt, log, stopped>>
Wake == /\ wpc = "sleep" /\ pipe + inner > 0
        /\ wpc' = (IF quit THEN "end" ELSE IF pipe > 0 THEN "read" ELSE "touched")
        /\ UNCHANGED <<q, flag, pipe, inner, quit, spc, cnt, log, stopped>>
Touched == W("touched", "check") /\ inner' = 0 /\ UNCHANGED <<q, flag, pipe, quit, spc, cnt, log, stopped>>
Read == /\ wpc = "read" /\ (IF pipe > 0 THEN wpc' = "flag" /\ pipe' = pipe - 1 ELSE wpc' = "check" /\ pipe' = pipe)
        /\ UNCHANGED <<q, flag, inner, quit, spc, cnt, log, stopped>>
SetFlag == W("flag", "pop") /\ flag' = TRUE /\ UNCHANGED <<q, pipe, inner, quit, spc, cnt, log, stopped>>
Pop == /\ wpc = "pop"
       /\ IF q = <<>> THEN wpc' = "read" /\ UNCHANGED <<q, log>>
          ELSE q' = Tail(q) /\ log' = [log EXCEPT ![Head(q)[1]] = Append(@, Head(q)[2])] /\ wpc' = "pop"
       /\ UNCHANGED <<flag, pipe, inner, quit, spc, cnt, stopped>>
Check == wpc = "check" /\ wpc' = (IF quit THEN "end" ELSE "sleep") /\ UNCHANGED <<q, flag, pipe, inner, quit, spc, cnt, log, stopped>>
Stop == Stopper /\ stopped = "no" /\ stopped' = "yes" /\ quit' = TRUE /\ inner' = 1 /\ UNCHANGED <<q, flag, pipe, spc, cnt, wpc, log>>
Worker == Boot \/ Wake \/ Touched \/ Read \/ SetFlag \/ Pop \/ Check
Rest == (\A s \in Snd : spc[s] = "push" /\ cnt[s] = B * N) /\ wpc \in {"sleep", "end"} /\ pipe + inner = 0 /\ UNCHANGED vars
Next == Worker \/ Stop \/ Rest \/ \E s \in Snd : Push(s) \/ Cas(s) \/ Write(s)
Spec == Init /\ [][Next]_vars /\ WF_vars(Worker) /\ \A s \in Snd : WF_vars(Push(s) \/ Cas(s) \/ Write(s))
(* every sender's messages in order, exactly once *)
InOrder == \A s \in Snd : \A i \in 1..Len(log[s]) : log[s][i] = i - 1
(* a sleeping worker with nothing on the way to wake it has an empty queue *)
NoLostWakeup == wpc = "sleep" /\ pipe = 0 /\ (\A s \in Snd : spc[s] = "push" /\ cnt[s] % N = 0) => q = <<>>
FewBytes == pipe <= 1 + S
(* unless it is asked to end, the worker delivers everything; asked to end, it does *)
Delivered == <>(stopped = "yes" \/ \A s \in Snd : Len(log[s]) = B * N)
Ends == (stopped = "yes") ~> (wpc = "end")
============================================================================
