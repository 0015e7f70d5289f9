----------------------------- MODULE XorShift -----------------------------
(* xorshift128+ on 64-bit words written as 8 little-endian bytes.         *)
EXTENDS Naturals, Sequences, Bitwise, TLC
Byte(w, i) == IF i \in 1..8 THEN w[i] ELSE 0
Xor8(a, b) == TLCEval([i \in 1..8 |-> a[i] ^^ b[i]])
ShL(w, n) == LET q == n \div 8  r == n % 8
             IN TLCEval([i \in 1..8 |-> ((Byte(w, i - q) * 2^r) % 256) + (Byte(w, i - q - 1) \div 2^(8 - r))])
ShR(w, n) == LET q == n \div 8  r == n % 8
             IN TLCEval([i \in 1..8 |-> (Byte(w, i + q) \div 2^r) + ((Byte(w, i + q + 1) * 2^(8 - r)) % 256)])
RECURSIVE AddR(_, _, _, _)
AddR(a, b, i, c) == IF i > 8 THEN <<>> ELSE LET v == a[i] + b[i] + c IN <<v % 256>> \o AddR(a, b, i + 1, v \div 256)
Add8(a, b) == TLCEval(AddR(a, b, 1, 0))
(* generator state <<s0, s1>>: one step yields <<output, new state>> *)
NextWord(g) == LET x1 == Xor8(g[1], ShL(g[1], 23))
                   x2 == Xor8(x1, ShR(x1, 17))
                   x3 == Xor8(x2, Xor8(g[2], ShR(g[2], 26)))
               IN <<Add8(x3, g[2]), <<g[2], x3>>>>
(* masking consumes one word per started group of eight bytes *)
RECURSIVE Mask(_, _)
Mask(b, g) == IF b = <<>> THEN <<<<>>, g>>
              ELSE LET n == TLCEval(NextWord(g))
                       k == IF Len(b) < 8 THEN Len(b) ELSE 8
                       r == TLCEval(Mask(SubSeq(b, k + 1, Len(b)), n[2]))
                   IN <<[i \in 1..k |-> b[i] ^^ n[1][i]] \o r[1], r[2]>>
===========================================================================
