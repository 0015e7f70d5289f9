----------------------------- MODULE ServerMC -----------------------------
(* Design model of TcpServer: a master thread that accepts and hands out    *)
(* connections in rotation, W work threads, a mailbox for each; shutdown of *)
(* single connections, of the listening and of the whole server.            *)
EXTENDS Naturals, Sequences, FiniteSets
CONSTANTS W, NC, Users     \* work threads, clients, users that shut down connections
VARIABLES mbox, wbox, mpc, wpc, listen, conn, map, wshut, shutting, next, stop, upc, join, wid
vars == <<mbox, wbox, mpc, wpc, listen, conn, map, wshut, shutting, next, stop, upc, join, wid>>
Ws == 1..W
Cs == 1..NC
(* conn[c]: none, backlog, refused, handed (in a mailbox), open, closing, closed (reported), gone *)
Init == /\ mbox = <<>> /\ wbox = [w \in Ws |-> <<>>] /\ mpc = "loop" /\ wpc = [w \in Ws |-> "loop"] /\ listen = TRUE
        /\ conn = [c \in Cs |-> "none"] /\ map = [w \in Ws |-> {}] /\ wshut = [w \in Ws |-> FALSE] /\ shutting = FALSE /\ next = 0
        /\ stop = "no" /\ upc = [u \in 1..Users |-> "idle"] /\ join = "no" /\ wid = [c \in Cs |-> 0]
Put(w, m) == wbox' = [wbox EXCEPT ![w] = Append(@, m)]
(* ---- clients *)
Arrive(c) == conn[c] = "none" /\ conn' = [conn EXCEPT ![c] = IF listen THEN "backlog" ELSE "refused"] /\ UNCHANGED <<mbox, wbox, mpc, wpc, listen, map, wshut, shutting, next, stop, upc, join, wid>>
PeerEnd(c) == /\ conn[c] \in {"open", "closing"} /\ wpc[wid[c]] = "loop" /\ conn' = [conn EXCEPT ![c] = "closed"] /\ Put(wid[c], <<"close", c>>)
              /\ UNCHANGED <<mbox, mpc, wpc, listen, map, wshut, shutting, next, stop, upc, join, wid>>
(* pending output of a connection that is ending is on its way at last *)
Drained(c) == conn[c] = "closing" /\ wpc[wid[c]] = "loop" /\ conn' = [conn EXCEPT ![c] = "closed"] /\ Put(wid[c], <<"close", c>>)
              /\ UNCHANGED <<mbox, mpc, wpc, listen, map, wshut, shutting, next, stop, upc, join, wid>>
(* ---- master *)
Accept(c) == /\ mpc = "loop" /\ listen /\ conn[c] = "backlog" /\ ~shutting
             /\ LET w == (next % W) + 1 IN Put(w, <<"new", c>>) /\ wid' = [wid EXCEPT ![c] = w]
             /\ next' = next + 1 /\ conn' = [conn EXCEPT ![c] = "handed"] /\ UNCHANGED <<mbox, mpc, wpc, listen, map, wshut, shutting, stop, upc, join>>
Master == /\ mpc = "loop" /\ mbox # <<>> /\ mbox' = Tail(mbox) /\ listen' = FALSE
          /\ conn' = [c \in Cs |-> IF conn[c] = "backlog" THEN "refused" ELSE conn[c]]
          /\ (IF Head(mbox) = "shutdown" THEN wbox' = [w \in Ws |-> Append(wbox[w], <<"shutdown", 0>>)] /\ mpc' = "quit" ELSE UNCHANGED <<wbox, mpc>>)
          /\ UNCHANGED <<wpc, map, wshut, shutting, next, stop, upc, join, wid>>
MEnd == mpc = "quit" /\ mpc' = "end" /\ UNCHANGED <<mbox, wbox, wpc, listen, conn, map, wshut, shutting, next, stop, upc, join, wid>>
(* ---- a work thread takes the next message; a shutdown of a connection ends it at once or after its pending output *)
ShutOne(c, x) == conn' = [conn EXCEPT ![c] = x]
Handle(w) ==
  /\ wpc[w] = "loop" /\ wbox[w] # <<>>
  /\ LET m == Head(wbox[w])  c == m[2]  rest == Tail(wbox[w]) IN
     CASE m[1] = "new" -> conn' = [conn EXCEPT ![c] = "open"] /\ map' = [map EXCEPT ![w] = @ \cup {c}] /\ wbox' = [wbox EXCEPT ![w] = rest] /\ UNCHANGED <<wpc, wshut>>
       [] m[1] = "close" ->
            IF c \notin map[w] THEN wbox' = [wbox EXCEPT ![w] = rest] /\ UNCHANGED <<conn, map, wpc, wshut>>
            ELSE /\ map' = [map EXCEPT ![w] = IF conn[c] = "closed" THEN @ \ {c} ELSE @]
                 /\ \/ conn[c] = "open" /\ ShutOne(c, "closed") /\ wbox' = [wbox EXCEPT ![w] = Append(rest, <<"close", c>>)]
                    \/ conn[c] = "open" /\ ShutOne(c, "closing") /\ wbox' = [wbox EXCEPT ![w] = rest]
                    \/ conn[c] # "open" /\ conn' = [conn EXCEPT ![c] = IF conn[c] = "closed" THEN "gone" ELSE @] /\ wbox' = [wbox EXCEPT ![w] = rest]
                 /\ wpc' = [wpc EXCEPT ![w] = IF map'[w] = {} /\ wshut[w] THEN "quit" ELSE @] /\ UNCHANGED wshut
       [] m[1] = "shutdown" ->
            /\ wshut' = [wshut EXCEPT ![w] = TRUE] /\ UNCHANGED map
            /\ wpc' = [wpc EXCEPT ![w] = IF map[w] = {} THEN "quit" ELSE @]
            /\ LET O == {x \in map[w] : conn[x] = "open"} IN
               \E D \in SUBSET O : /\ conn' = [x \in Cs |-> IF x \in O THEN (IF x \in D THEN "closing" ELSE "closed") ELSE conn[x]]
                                   /\ LET now == O \ D IN \E q \in {f \in [1..Cardinality(now) -> now] : \A i, j \in 1..Cardinality(now) : i # j => f[i] # f[j]} :
                                        wbox' = [wbox EXCEPT ![w] = rest \o [i \in 1..Cardinality(now) |-> <<"close", q[i]>>]]
  /\ UNCHANGED <<mbox, mpc, listen, shutting, next, stop, upc, join, wid>>
WEnd(w) == wpc[w] = "quit" /\ wpc' = [wpc EXCEPT ![w] = "end"] /\ UNCHANGED <<mbox, wbox, mpc, listen, conn, map, wshut, shutting, next, stop, upc, join, wid>>
(* ---- users *)
UShut(u) == /\ upc[u] = "idle" /\ join = "no" /\ \E c \in Cs : conn[c] \in {"open", "closing", "closed"} /\ Put(wid[c], <<"close", c>>)
            /\ upc' = [upc EXCEPT ![u] = "done"] /\ UNCHANGED <<mbox, mpc, wpc, listen, conn, map, wshut, shutting, next, stop, join, wid>>
StopListen == stop = "no" /\ listen /\ mbox = <<>> /\ mbox' = Append(mbox, "stoplisten") /\ UNCHANGED <<wbox, mpc, wpc, listen, conn, map, wshut, shutting, next, stop, upc, join, wid>>
Stop1 == stop = "no" /\ stop' = "flag" /\ shutting' = TRUE /\ UNCHANGED <<mbox, wbox, mpc, wpc, listen, conn, map, wshut, next, upc, join, wid>>
Stop2 == stop = "flag" /\ stop' = "sent" /\ mbox' = Append(mbox, "shutdown") /\ UNCHANGED <<wbox, mpc, wpc, listen, conn, map, wshut, shutting, next, upc, join, wid>>
Join == stop = "sent" /\ join = "no" /\ mpc = "end" /\ (\A w \in Ws : wpc[w] = "end") /\ join' = "done" /\ UNCHANGED <<mbox, wbox, mpc, wpc, listen, conn, map, wshut, shutting, next, stop, upc, wid>>
Next == \/ Master \/ MEnd \/ StopListen \/ Stop1 \/ Stop2 \/ Join \/ (\E c \in Cs : Arrive(c) \/ PeerEnd(c) \/ Drained(c) \/ Accept(c))
        \/ (\E w \in Ws : Handle(w) \/ WEnd(w)) \/ \E u \in 1..Users : UShut(u)
Spec == /\ Init /\ [][Next]_vars /\ WF_vars(Master) /\ WF_vars(MEnd) /\ WF_vars(Stop2) /\ WF_vars(Join)
        /\ \A w \in Ws : WF_vars(Handle(w)) /\ WF_vars(WEnd(w)) /\ \A c \in Cs : WF_vars(Drained(c))
(* the server ends whole: every accepted connection was reported closed and released before join returns *)
AllClosed == \A c \in Cs : join = "done" => conn[c] \in {"none", "refused", "gone"}
(* a work thread never leaves with a connection, or with one on the way to it *)
NoneLeft == \A w \in Ws : wpc[w] \in {"quit", "end"} => map[w] = {} /\ ~\E i \in 1..Len(wbox[w]) : wbox[w][i][1] = "new"
Rotation == \A c \in Cs : conn[c] \in {"handed", "open", "closing", "closed"} => wid[c] \in Ws
Fair1 == \A v, w \in Ws : LET cnt(x) == Cardinality({c \in Cs : wid[c] = x}) IN cnt(v) <= cnt(w) + 1
Ends == (stop # "no") ~> (join = "done")
============================================================================
