----------------------------- MODULE RingBuf -----------------------------
(* The ring buffer as its users see it: an ordered byte string with a     *)
(* capacity, next to the kernel's inbound and outbound byte strings.       *)
(* Every operation is a relation between the state before, the arguments,  *)
(* the reported result, and the state after.                                *)
EXTENDS Integers, Sequences, Runs, Adler

Huge == 1000000000     \* stands for any count beyond every buffer

Clip(n, m) == IF n > m THEN m ELSE n

(* st = <<size, free, capacity, empty, full>> as reported by the accessors *)
Agrees(c, st) ==
    /\ st[1] = RLen(c)
    /\ st[3] >= RLen(c)
    /\ st[2] = st[3] - RLen(c)
    /\ st[4] = (IF RLen(c) = 0 THEN 1 ELSE 0)
    /\ st[5] = (IF st[2] = 0 THEN 1 ELSE 0)

AppendOp(c, base, n) == RAppend(c, base, n)
OutCount(c, n)       == Clip(n, RLen(c))

PeekLen(c, off, n) == IF off > RLen(c) THEN 0 ELSE Clip(n, RLen(c) - off)
Slice(c, off, n)   == RTake(RDrop(c, off), n)

SearchPos(c, off, v) == IF off > RLen(c) THEN -1
                        ELSE LET p == RFind(RDrop(c, off), v, off) IN p

SumOf(c, off, n) == IF off > RLen(c) \/ n > RLen(c) - off \/ n = 0 THEN AdlerInit
                    ELSE AdlerRuns(AdlerInit, Slice(c, off, n))
==========================================================================
