--------------------------- MODULE RingBufTrace ---------------------------
EXTENDS TraceBase, RingBuf
VARIABLES tr, l,
          c,      \* c[i]: content of buffer i
          cap,    \* cap[i]: last reported capacity
          kin,    \* kin[i]: bytes waiting in the kernel to be read
          kout,   \* kout[i]: bytes handed to the kernel and not yet taken by the peer
          kst     \* kst[i]: "open", "eof", "rst" (reset, not yet reported), "dead"
vars == <<tr, l, c, cap, kin, kout, kst>>

Init == /\ tr \in 1..NT /\ l = 1
        /\ c = [i \in 0..1 |-> <<>>]
        /\ cap = [i \in 0..1 |-> Traces[tr].cfg.caps[i + 1]]
        /\ kin = [i \in 0..1 |-> <<>>] /\ kout = [i \in 0..1 |-> <<>>]
        /\ kst = [i \in 0..1 |-> "open"]

Kern == UNCHANGED <<kin, kout, kst>>
(* content of buffer b becomes x and the accessors report st *)
Becomes(b, x, st) == /\ Agrees(x, st) /\ c' = [c EXCEPT ![b] = x] /\ cap' = [cap EXCEPT ![b] = st[3]]
Keeps(b, st) == Becomes(b, c[b], st) /\ st[3] = cap[b]

Step(e) ==
  \/ /\ e.e = "into" /\ Becomes(e.b, AppendOp(c[e.b], e.base, e.n), e.st) /\ e.st[3] >= cap[e.b] /\ Kern
  \/ /\ e.e = "out" /\ e.r = OutCount(c[e.b], e.n) /\ e.d = RTake(c[e.b], e.r) /\ e.g
     /\ Becomes(e.b, RDrop(c[e.b], e.r), e.st) /\ Kern
  \/ /\ e.e = "discard" /\ e.r = OutCount(c[e.b], e.n) /\ Becomes(e.b, RDrop(c[e.b], e.r), e.st) /\ Kern
  \/ /\ e.e = "move" /\ e.r = OutCount(c[e.b], e.n)
     /\ LET s == RDrop(c[e.b], e.r) d == RCat(c[1 - e.b], RTake(c[e.b], e.r)) IN
        /\ Agrees(s, e.st) /\ Agrees(d, e.st2)
        /\ c' = [i \in 0..1 |-> IF i = e.b THEN s ELSE d]
        /\ cap' = [i \in 0..1 |-> IF i = e.b THEN e.st[3] ELSE e.st2[3]]
     /\ Kern
  \/ /\ e.e = "peek" /\ e.r = PeekLen(c[e.b], e.off, e.n) /\ e.d = Slice(c[e.b], e.off, e.r) /\ e.g /\ Keeps(e.b, e.st) /\ Kern
  \/ /\ e.e = "search" /\ e.r = SearchPos(c[e.b], e.off, e.v) /\ Keeps(e.b, e.st) /\ Kern
  \/ /\ e.e = "sum" /\ <<e.hi, e.lo>> = SumOf(c[e.b], e.off, e.n) /\ Keeps(e.b, e.st) /\ Kern
  \/ /\ e.e = "norm" /\ e.d = c[e.b] /\ Keeps(e.b, e.st) /\ Kern
  \/ /\ e.e = "resize" /\ e.st[3] >= e.n /\ e.st[3] >= cap[e.b] /\ Becomes(e.b, c[e.b], e.st) /\ Kern
  \/ /\ e.e = "reset" /\ Becomes(e.b, <<>>, e.st) /\ Kern
  \/ /\ e.e = "fin" /\ UNCHANGED <<c, cap>> /\ Kern
  \* ---- environment
  \/ /\ e.e = "kwrite" /\ kin' = [kin EXCEPT ![e.b] = RAppend(@, e.base, e.n)] /\ UNCHANGED <<c, cap, kout, kst>>
  \/ /\ e.e = "kread" /\ e.n <= RLen(kout[e.b]) /\ e.d = RTake(kout[e.b], e.n)
     /\ kout' = [kout EXCEPT ![e.b] = RDrop(@, e.n)] /\ UNCHANGED <<c, cap, kin, kst>>
  \/ /\ e.e = "keof" /\ kst' = [kst EXCEPT ![e.b] = "eof"] /\ UNCHANGED <<c, cap, kin, kout>>
  \/ /\ e.e = "kreset" /\ kst' = [kst EXCEPT ![e.b] = "rst"] /\ UNCHANGED <<c, cap, kin, kout>>
  \* ---- descriptor to buffer
  \/ /\ e.e = "rsock" /\ e.r > 0
     /\ e.r <= RLen(kin[e.b])
     /\ (~e.extra => e.r <= cap[e.b] - RLen(c[e.b]))
     /\ e.left = RLen(kin[e.b]) - e.r
     /\ kin' = [kin EXCEPT ![e.b] = RDrop(@, e.r)]
     /\ Becomes(e.b, RCat(c[e.b], RTake(kin[e.b], e.r)), e.st)
     /\ (~e.extra => e.st[3] = cap[e.b])
     /\ UNCHANGED kout
     \* without vectored reads a second read may have met (and used up) the error behind the data
     /\ \/ kst' = kst
        \/ ~Traces[tr].cfg.once /\ kst[e.b] = "rst" /\ e.left = 0 /\ kst' = [kst EXCEPT ![e.b] = "dead"]
  \/ /\ e.e = "rsock" /\ e.r = 0
     /\ \/ kin[e.b] = <<>> /\ kst[e.b] \in {"eof", "dead"}
        \/ ~e.extra /\ cap[e.b] = RLen(c[e.b])          \* nothing was asked for
     /\ e.left = RLen(kin[e.b]) /\ Keeps(e.b, e.st) /\ Kern
  \/ /\ e.e = "rsock" /\ e.r < 0 /\ e.err = "again"
     /\ (kin[e.b] = <<>> => kst[e.b] = "open")         \* never in place of end of file or an error
     /\ e.left = RLen(kin[e.b]) /\ Keeps(e.b, e.st) /\ Kern
  \/ /\ e.e = "rsock" /\ e.r < 0 /\ e.err = "error"
     /\ kin[e.b] = <<>> /\ kst[e.b] = "rst" /\ kst' = [kst EXCEPT ![e.b] = "dead"]
     /\ Keeps(e.b, e.st) /\ UNCHANGED <<kin, kout>>
  \* ---- buffer to descriptor
  \/ /\ e.e = "wsock" /\ e.r > 0 /\ e.r <= RLen(c[e.b])
     /\ kout' = [kout EXCEPT ![e.b] = RCat(@, RTake(c[e.b], e.r))]
     /\ Becomes(e.b, RDrop(c[e.b], e.r), e.st) /\ UNCHANGED <<kin, kst>>
  \/ /\ e.e = "wsock" /\ e.r < 0 /\ e.err = "again" /\ kst[e.b] \in {"open", "eof"} /\ Keeps(e.b, e.st) /\ Kern
  \/ /\ e.e = "wsock" /\ e.r < 0 /\ e.err = "error" /\ kst[e.b] \in {"rst", "dead"}
     /\ kst' = [kst EXCEPT ![e.b] = "dead"] /\ Keeps(e.b, e.st) /\ UNCHANGED <<kin, kout>>

Next == /\ l <= Len(Traces[tr].ev) /\ l' = l + 1 /\ tr' = tr /\ Step(Traces[tr].ev[l])
Progress == Reached(tr, l)
===========================================================================
