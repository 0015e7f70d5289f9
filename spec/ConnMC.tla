------------------------------ MODULE ConnMC ------------------------------
(* Design model of TcpConnection: the loop thread sends directly when       *)
(* nothing is buffered, other threads append to the write buffer, all under *)
(* the write lock; the loop flushes when writable, closes on shutdown once  *)
(* the buffer is empty, or when the peer ends the connection.  Messages are *)
(* two units each, so that a torn or interleaved message shows.             *)
EXTENDS Naturals, Sequences, FiniteSets
CONSTANTS T,       \* other senders
          N,       \* messages per sender, the loop thread (sender 0) included
          K,       \* room in the kernel, units
          PeerEnds, \* may the peer close or reset
          Shut     \* may the program shut down
VARIABLES st, wr, ev, buf, kern, rcv, lock, acc, lpc, msg, spc, cnt, peer, closes, sc, shutd, bad, pend
vars == <<st, wr, ev, buf, kern, rcv, lock, acc, lpc, msg, spc, cnt, peer, closes, sc, shutd, bad, pend>>
Snd == 1..T
All == 0..T
Units(s, i) == <<<<s, i, 1>>, <<s, i, 2>>>>
Init == /\ st = 1 /\ wr = FALSE /\ ev = TRUE /\ buf = <<>> /\ kern = <<>> /\ rcv = <<>> /\ lock = "no" /\ acc = <<>> /\ lpc = "poll" /\ msg = <<>>
        /\ spc = [s \in Snd |-> "idle"] /\ cnt = [s \in All |-> 0] /\ peer = "open" /\ closes = 0 /\ sc = 0 /\ shutd = FALSE /\ bad = FALSE /\ pend = "no"
Take(q, n) == SubSeq(q, 1, n)
Drop(q, n) == SubSeq(q, n + 1, Len(q))
Room == K - Len(kern)
Go(p) == lpc' = p
(* ---- the loop thread at rest: it is told about the socket or the program calls it *)
L0 == lpc = "poll" /\ ev
LSend == /\ L0 /\ st = 1 /\ cnt[0] < N /\ lock = "no" /\ lock' = "loop" /\ msg' = Units(0, cnt[0]) /\ cnt' = [cnt EXCEPT ![0] = @ + 1] /\ Go("send")
         /\ UNCHANGED <<st, wr, ev, buf, kern, rcv, acc, spc, peer, closes, sc, shutd, bad, pend>>
Send == /\ lpc = "send" /\ acc' = acc \o msg
        /\ \/ /\ ~wr /\ buf = <<>> /\ peer # "rst"
              /\ \E n \in 0..(IF Room < 2 THEN Room ELSE 2) : kern' = kern \o Take(msg, n) /\ buf' = Drop(msg, n)
              /\ wr' = TRUE /\ Go("unl") /\ UNCHANGED st
           \/ /\ ~wr /\ buf = <<>> /\ peer = "rst" /\ st' = 2 /\ Go("unlF") /\ UNCHANGED <<kern, buf, wr>>
           \/ /\ (wr \/ buf # <<>>) /\ buf' = buf \o msg /\ wr' = TRUE /\ Go("unl") /\ UNCHANGED <<kern, st>>
        /\ UNCHANGED <<ev, rcv, lock, msg, spc, cnt, peer, closes, sc, shutd, bad, pend>>
Unl == lpc = "unl" /\ lock' = "no" /\ Go("poll") /\ UNCHANGED <<st, wr, ev, buf, kern, rcv, acc, msg, spc, cnt, peer, closes, sc, shutd, bad, pend>>
UnlF == lpc = "unlF" /\ lock' = "no" /\ Go("disall") /\ UNCHANGED <<st, wr, ev, buf, kern, rcv, acc, msg, spc, cnt, peer, closes, sc, shutd, bad, pend>>
DisAll == lpc = "disall" /\ wr' = FALSE /\ Go("shut") /\ UNCHANGED <<st, ev, buf, kern, rcv, lock, acc, msg, spc, cnt, peer, closes, sc, shutd, bad, pend>>
LShut == L0 /\ Shut /\ ~shutd /\ st \in {1, 2} /\ shutd' = TRUE /\ Go("shut") /\ UNCHANGED <<st, wr, ev, buf, kern, rcv, lock, acc, msg, spc, cnt, peer, closes, sc, bad, pend>>
ShutIn == /\ lpc = "shut" /\ lock = "no" /\ st' = 2 /\ (IF wr /\ buf # <<>> THEN Go("poll") ELSE Go("close")) /\ UNCHANGED <<wr, ev, buf, kern, rcv, lock, acc, msg, spc, cnt, peer, closes, sc, shutd, bad, pend>>
(* ---- writable *)
LWrite == /\ L0 /\ wr /\ (Room > 0 \/ peer # "open") /\ lock = "no" /\ lock' = "loop" /\ Go("flush") /\ UNCHANGED <<st, wr, ev, buf, kern, rcv, acc, msg, spc, cnt, peer, closes, sc, shutd, bad, pend>>
Flush == /\ lpc = "flush"
         /\ (IF buf # <<>> /\ peer # "rst" THEN \E n \in 0..(IF Room < Len(buf) THEN Room ELSE Len(buf)) : (Room > 0 => n > 0) /\ kern' = kern \o Take(buf, n) /\ buf' = Drop(buf, n)
             ELSE UNCHANGED <<kern, buf>>)
         /\ (IF buf' = <<>> THEN wr' = FALSE /\ Go("comp") ELSE wr' = wr /\ Go("unl")) /\ UNCHANGED <<st, ev, rcv, lock, acc, msg, spc, cnt, peer, closes, sc, shutd, bad, pend>>
Comp == lpc = "comp" /\ lock' = "no" /\ sc' = Len(rcv) + Len(kern) /\ Go("comp2") /\ UNCHANGED <<st, wr, ev, buf, kern, rcv, acc, msg, spc, cnt, peer, closes, shutd, bad, pend>>
(* the completion callback may send or shut down in turn; then a connection that is ending goes on *)
Comp2 == /\ lpc = "comp2" /\ Go(IF st = 2 THEN "shut" ELSE "poll") /\ UNCHANGED <<st, wr, ev, buf, kern, rcv, lock, acc, msg, spc, cnt, peer, closes, sc, shutd, bad, pend>>
(* ---- readable: the peer ended it *)
LRead == L0 /\ peer # "open" /\ Go("close") /\ UNCHANGED <<st, wr, ev, buf, kern, rcv, lock, acc, msg, spc, cnt, peer, closes, sc, shutd, bad, pend>>
(* ---- close *)
Close == lpc = "close" /\ lock = "no" /\ st' = 3 /\ Go("del") /\ UNCHANGED <<wr, ev, buf, kern, rcv, lock, acc, msg, spc, cnt, peer, closes, sc, shutd, bad, pend>>
Del == lpc = "del" /\ ev' = FALSE /\ wr' = FALSE /\ closes' = closes + 1 /\ Go("reset") /\ UNCHANGED <<st, buf, kern, rcv, lock, acc, msg, spc, cnt, peer, sc, shutd, bad, pend>>
Reset == lpc = "reset" /\ pend' = (IF buf # <<>> THEN "lost" ELSE "no") /\ buf' = <<>> /\ Go("end") /\ UNCHANGED <<st, wr, ev, kern, rcv, lock, acc, msg, spc, cnt, peer, closes, sc, shutd, bad>>
Loop == LSend \/ Send \/ Unl \/ UnlF \/ DisAll \/ LShut \/ ShutIn \/ LWrite \/ Flush \/ Comp \/ Comp2 \/ LRead \/ Close \/ Del \/ Reset
(* ---- another sender *)
SLock(s) == /\ spc[s] = "idle" /\ cnt[s] < N /\ lock = "no" /\ spc' = [spc EXCEPT ![s] = IF st = 1 THEN "put" ELSE "gone"] /\ lock' = (IF st = 1 THEN "other" ELSE lock)
            /\ cnt' = [cnt EXCEPT ![s] = @ + 1] /\ UNCHANGED <<st, wr, ev, buf, kern, rcv, acc, lpc, msg, peer, closes, sc, shutd, bad, pend>>
SPut(s) == /\ spc[s] = "put" /\ buf' = buf \o Units(s, cnt[s] - 1) /\ acc' = acc \o Units(s, cnt[s] - 1) /\ spc' = [spc EXCEPT ![s] = "en"]
           /\ UNCHANGED <<st, wr, ev, kern, rcv, lock, lpc, msg, cnt, peer, closes, sc, shutd, bad, pend>>
SEn(s) == /\ spc[s] = "en" /\ wr' = TRUE /\ bad' = (bad \/ ~ev) /\ lock' = "no" /\ spc' = [spc EXCEPT ![s] = "idle"] /\ UNCHANGED <<st, ev, buf, kern, rcv, acc, lpc, msg, cnt, peer, closes, sc, shutd, pend>>
Sender(s) == SLock(s) \/ SPut(s) \/ SEn(s)
(* ---- the peer *)
PRecv == kern # <<>> /\ peer # "rst" /\ rcv' = Append(rcv, Head(kern)) /\ kern' = Tail(kern) /\ UNCHANGED <<st, wr, ev, buf, lock, acc, lpc, msg, spc, cnt, peer, closes, sc, shutd, bad, pend>>
PEnd == PeerEnds /\ peer = "open" /\ \E p \in {"fin", "rst"} : peer' = p /\ UNCHANGED <<st, wr, ev, buf, kern, rcv, lock, acc, lpc, msg, spc, cnt, closes, sc, shutd, bad, pend>>
Next == Loop \/ PRecv \/ PEnd \/ \E s \in Snd : Sender(s)
LoopLive == Send \/ Unl \/ UnlF \/ DisAll \/ ShutIn \/ LWrite \/ Flush \/ Comp \/ Comp2 \/ LRead \/ Close \/ Del \/ Reset
Spec == Init /\ [][Next]_vars /\ WF_vars(LoopLive) /\ SF_vars(LWrite) /\ SF_vars(LRead) /\ SF_vars(ShutIn) /\ SF_vars(Close) /\ WF_vars(PRecv) /\ \A s \in Snd : SF_vars(SLock(s)) /\ WF_vars(SPut(s) \/ SEn(s))
(* what the peer has is a prefix of what was accepted, in the order of acceptance, whole messages in one piece *)
Stream == st # 3 /\ lpc # "unlF" /\ lpc # "disall" /\ ~(lpc = "shut" /\ peer = "rst") /\ peer # "rst" /\ lpc # "send" => rcv \o kern \o buf = acc
Prefix == SubSeq(acc, 1, Len(rcv)) = rcv
Whole == \A i \in 1..Len(acc) : i % 2 = 1 => acc[i + 1] = <<acc[i][1], acc[i][2], 2>> /\ acc[i][3] = 1
PerSender == \A s \in All : \A i, j \in 1..Len(acc) : i < j /\ acc[i][1] = s /\ acc[j][1] = s => acc[i][2] <= acc[j][2]
OnceClosed == closes <= 1 /\ (closes = 1 => st = 3)
NoTouch == ~bad                                   \* nobody enables a deleted event
NoIdleData == lpc = "poll" /\ st # 3 /\ buf # <<>> /\ lock = "no" => wr
(* a shutdown of a connection the peer keeps open loses nothing *)
NothingLost == peer = "open" => pend # "lost"
DrainedEnd == lpc = "end" /\ peer = "open" => rcv \o kern = acc
Finishes == shutd ~> (lpc = "end")
============================================================================
