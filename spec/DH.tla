-------------------------------- MODULE DH --------------------------------
(* Arithmetic modulo P = 2^128 - 159 on little-endian sequences of 16     *)
(* bytes, by schoolbook multiplication and folding 2^128 = 159.           *)
EXTENDS Naturals, Sequences, SequencesExt, FiniteSets, TLC
Idx == TLCEval([i \in 1..16 |-> i])
(* normalise a sequence of naturals to bytes: <<bytes, carry>> *)
Carry(s) == FoldLeft(LAMBDA r, x : LET v == x + r[2] IN <<Append(r[1], v % 256), v \div 256>>, <<<<>>, 0>>, s)
RECURSIVE Fold(_)
(* s: 16 naturals; the result is 16 bytes congruent to it modulo P *)
Fold(s) == LET r == TLCEval(Carry(s)) IN IF r[2] = 0 THEN r[1] ELSE Fold(TLCEval([r[1] EXCEPT ![1] = @ + 159 * r[2]]))
Top(s) == s[1] >= 97 /\ \A i \in 2..16 : s[i] = 255      \* s >= P
Reduce(s) == LET f == TLCEval(Fold(s)) IN IF Top(f) THEN TLCEval([i \in 1..16 |-> IF i = 1 THEN f[1] - 97 ELSE 0]) ELSE f
Conv(a, b, k) == FoldLeft(LAMBDA acc, i : IF k - i + 1 \in 1..16 THEN acc + a[i] * b[k - i + 1] ELSE acc, 0, Idx)
(* digits 1..16 plus 159 times digits 17..31 *)
MulP(a, b) == Reduce(TLCEval([k \in 1..16 |-> Conv(a, b, k) + 159 * (IF k = 16 THEN 0 ELSE Conv(a, b, k + 16))]))
One == TLCEval([i \in 1..16 |-> IF i = 1 THEN 1 ELSE 0])
Five == TLCEval([i \in 1..16 |-> IF i = 1 THEN 5 ELSE 0])
Positions == TLCEval([i \in 1..128 |-> 128 - i])
Bit(e, n) == (e[(n \div 8) + 1] \div (2^(n % 8))) % 2
(* square and multiply from the highest bit *)
PowP(a, e) == LET b == TLCEval(Reduce(a))
              IN FoldLeft(LAMBDA acc, n :
                   IF Bit(e, n) = 1 THEN (IF acc = One THEN b ELSE MulP(TLCEval(MulP(acc, acc)), b))
                   ELSE IF acc = One THEN One ELSE MulP(acc, acc), One, Positions)
ASSUME PowP(Five, [i \in 1..16 |-> 0]) = One
(* Fermat: 5^(P-1) = 1 *)
ASSUME PowP(Five, [i \in 1..16 |-> IF i = 1 THEN 96 ELSE 255]) = One
===========================================================================
