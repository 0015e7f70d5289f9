----------------------------- MODULE ClientMC -----------------------------
(* Design model of TcpClient on its loop thread: connection attempts with   *)
(* their kernel outcomes, the failure report (whose callback may connect,   *)
(* disconnect, send or let the client go), the retry timer, data kept while *)
(* connecting, the established connection and its end.                      *)
EXTENDS Naturals, Sequences, FiniteSets
CONSTANTS NA,    \* attempts overall
          NS     \* sends overall
VARIABLES sock, att, res, timer, seq, ctx, held, want, cache, out, sent, fds, rep, ended, up
vars == <<sock, att, res, timer, seq, ctx, held, want, cache, out, sent, fds, rep, ended, up>>
(* sock: none, connecting, est, over;  ctx: idle, or the sequence number a failure callback started with (>= 0)
   att: attempts so far;  fds: attempts whose descriptor is open;  rep[a]: how often attempt a was reported;
   ended: attempts the user took back;  held: does the user still hold the client *)
A == 1..NA
Idle == 999
Init == sock = "none" /\ att = 0 /\ res = "none" /\ timer = FALSE /\ seq = 0 /\ ctx = Idle /\ held = TRUE /\ want = FALSE /\ cache = <<>> /\ out = <<>> /\ sent = 0
        /\ fds = {} /\ rep = [a \in A |-> 0] /\ ended = {} /\ up = 0
Alive == held \/ ctx # Idle
User == held                       \* calls come from the loop thread, in a callback or between callbacks
(* connect(): a new attempt; it may be refused at once, then it is over when the call returns *)
Begin(now) == /\ att < NA /\ att' = att + 1 /\ timer' = FALSE
              /\ \/ sock' = "connecting" /\ res' = "none" /\ fds' = fds \cup {att + 1}
                 \/ sock' = "none" /\ res' = "none" /\ fds' = fds
UConnect == /\ User /\ sock = "none" /\ Begin(TRUE) /\ seq' = seq + 1 /\ rep' = (IF sock' = "none" THEN [rep EXCEPT ![att + 1] = @ + 1] ELSE rep)
            /\ UNCHANGED <<ctx, held, want, cache, out, sent, ended, up>>
UDisconnect == /\ User /\ seq < 6 /\ cache' = <<>> /\ timer' = FALSE /\ seq' = seq + 1
               /\ CASE sock = "connecting" -> sock' = "none" /\ fds' = fds \ {att} /\ ended' = ended \cup {att} /\ res' = "none" /\ UNCHANGED up
                    [] sock = "est" -> sock' = "over" /\ fds' = fds \ {att} /\ UNCHANGED <<ended, res, up>>
                    [] OTHER -> UNCHANGED <<sock, fds, ended, res, up>>
               /\ UNCHANGED <<att, ctx, held, want, out, sent, rep>>
USend == /\ User /\ sent < NS /\ sent' = sent + 1
         /\ CASE sock = "connecting" -> cache' = Append(cache, sent) /\ out' = out
              [] sock = "est" -> out' = Append(out, sent) /\ cache' = cache
              [] OTHER -> UNCHANGED <<cache, out>>
         /\ UNCHANGED <<sock, att, res, timer, seq, ctx, held, want, fds, rep, ended, up>>
(* the last reference may go while nothing is established *)
Release == sock' = "none" /\ timer' = FALSE /\ fds' = fds \ {att} /\ res' = "none" /\ ended' = (IF sock = "connecting" THEN ended \cup {att} ELSE ended)
UDrop == /\ User /\ sock # "est" /\ held' = FALSE
         /\ (IF ctx = Idle THEN Release ELSE UNCHANGED <<sock, timer, fds, res, ended>>)
         /\ UNCHANGED <<att, seq, ctx, want, cache, out, sent, rep, up>>
Kernel == sock = "connecting" /\ res = "none" /\ res' \in {"ok", "bad"} /\ UNCHANGED <<sock, att, timer, seq, ctx, held, want, cache, out, sent, fds, rep, ended, up>>
EnterFail == ctx' = seq /\ rep' = [rep EXCEPT ![att] = @ + 1]
(* the loop reports the outcome *)
Outcome == /\ ctx = Idle /\ sock = "connecting" /\ res # "none" /\ held
           /\ \/ res = "bad" /\ sock' = "none" /\ fds' = fds \ {att} /\ EnterFail /\ UNCHANGED <<cache, out, up>>
              \/ res = "ok" /\ sock' = "est" /\ rep' = [rep EXCEPT ![att] = @ + 1] /\ out' = out \o cache /\ cache' = <<>> /\ up' = up + 1 /\ UNCHANGED <<fds, ctx>>
              (* broken while the kept data went out: an attempt that failed *)
              \/ res = "ok" /\ cache # <<>> /\ sock' = "none" /\ fds' = fds \ {att} /\ EnterFail /\ UNCHANGED <<cache, out, up>>
           /\ res' = "none" /\ UNCHANGED <<att, timer, seq, held, want, sent, ended>>
(* the failure callback returns, with or without a wish to retry *)
FailEnd == /\ ctx # Idle /\ ctx' = Idle
           /\ \E retry \in BOOLEAN :
                IF held THEN timer' = (timer \/ (retry /\ seq = ctx)) /\ UNCHANGED <<sock, fds, res, ended>>
                ELSE Release
           /\ UNCHANGED <<att, seq, held, want, cache, out, sent, rep, up>>
Timer == /\ timer /\ ctx = Idle /\ Begin(FALSE) /\ seq' = seq + 1
         /\ (IF sock' = "none" THEN ctx' = seq' /\ rep' = [rep EXCEPT ![att + 1] = @ + 1] ELSE UNCHANGED <<ctx, rep>>)
         /\ UNCHANGED <<held, want, cache, out, sent, ended, up>>
PeerEnds == sock = "est" /\ ctx = Idle /\ sock' = "over" /\ fds' = fds \ {att} /\ UNCHANGED <<att, res, timer, seq, ctx, held, want, cache, out, sent, rep, ended, up>>
Next == UConnect \/ UDisconnect \/ USend \/ UDrop \/ Kernel \/ Outcome \/ FailEnd \/ Timer \/ PeerEnds
Spec == Init /\ [][Next]_vars /\ WF_vars(Outcome) /\ WF_vars(FailEnd) /\ WF_vars(Kernel)
OneDescriptor == Cardinality(fds) <= 1 /\ (fds # {} => sock \in {"connecting", "est"} /\ fds = {att})
TimerAlone == timer => sock = "none"
ReportedOnce == \A a \in A : rep[a] <= 1 /\ (a \in ended => rep[a] = 0) /\ (a < att /\ a \notin ended => rep[a] = 1)
OneConnection == up <= 1
InOrder == \A i, j \in 1..Len(out) : i < j => out[i] < out[j]
CacheFirst == sock = "est" => cache = <<>>
NothingLeft == ~held /\ ctx = Idle => fds = {} /\ ~timer
Answered == \A a \in A : (att = a /\ sock = "connecting" /\ held) ~> (rep[a] = 1 \/ a \in ended)
============================================================================
