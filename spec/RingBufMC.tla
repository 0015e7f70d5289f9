---------------------------- MODULE RingBufMC ----------------------------
(* Design model of the ring buffer: an array with read and write indices   *)
(* (one slot always free) refines the byte-string view used by RingBuf.tla.*)
EXTENDS Naturals, Sequences, FiniteSets
CONSTANTS MaxEnd, MaxBytes
VARIABLES arr, end, rd, wr, hist, nxt
vars == <<arr, end, rd, wr, hist, nxt>>
Size == IF wr >= rd THEN wr - rd ELSE end - rd + wr
Free == end - Size - 1
Content == [i \in 1..Size |-> arr[(rd + i - 1) % end]]
Init == end \in 2..3 /\ arr = [i \in 0..MaxEnd-1 |-> 0] /\ rd = 0 /\ wr = 0 /\ hist = <<>> /\ nxt = 1
PushN(n) == /\ nxt + n - 1 <= MaxBytes /\ Free >= n
            /\ arr' = [i \in DOMAIN arr |-> IF \E k \in 0..n-1 : (wr + k) % end = i
                                          THEN nxt + (CHOOSE k \in 0..n-1 : (wr + k) % end = i) ELSE arr[i]]
            /\ wr' = (wr + n) % end /\ nxt' = nxt + n /\ hist' = hist \o [k \in 1..n |-> nxt + k - 1]
            /\ UNCHANGED <<end, rd>>
Grow(ne) == /\ ne > end /\ ne <= MaxEnd
            /\ arr' = [i \in DOMAIN arr |-> IF i < Size THEN arr[(rd + i) % end] ELSE 0]
            /\ end' = ne /\ rd' = 0 /\ wr' = Size /\ UNCHANGED <<hist, nxt>>
PopN(n) == /\ n <= Size
           /\ LET r == (rd + n) % end IN IF r = wr THEN rd' = 0 /\ wr' = 0 ELSE rd' = r /\ wr' = wr
           /\ hist' = SubSeq(hist, n + 1, Len(hist)) /\ UNCHANGED <<arr, end, nxt>>
Normalize == /\ wr < rd /\ arr' = [i \in DOMAIN arr |-> IF i < Size THEN arr[(rd + i) % end] ELSE arr[i]]
             /\ rd' = 0 /\ wr' = Size /\ UNCHANGED <<end, hist, nxt>>
Next == (\E n \in 1..MaxEnd : PushN(n)) \/ (\E n \in 1..MaxEnd : PopN(n)) \/ (\E e \in 2..MaxEnd : Grow(e)) \/ Normalize
Spec == Init /\ [][Next]_vars
Refines == Content = hist
Indices == rd < end /\ wr < end /\ Size + Free = end - 1 /\ Free >= 0
==========================================================================
