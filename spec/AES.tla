------------------------------- MODULE AES -------------------------------
(* AES-128 (FIPS 197) and CBC chaining (SP 800-38A), written from the     *)
(* definition: finite-field arithmetic, not tables copied from the code.  *)
(* Bytes are numbers 0..255, blocks are sequences of 16 bytes.            *)
EXTENDS Naturals, Sequences, Bitwise, TLC

X4(a, b, c, d) == (a ^^ b) ^^ (c ^^ d)
XT(a) == IF a < 128 THEN 2 * a ELSE (2 * a - 256) ^^ 27
RECURSIVE GMul(_, _)
GMul(a, b) == IF b = 0 THEN 0 ELSE (IF b % 2 = 1 THEN a ELSE 0) ^^ GMul(XT(a), b \div 2)
RECURSIVE Pow3(_)
Pow3(n) == IF n = 0 THEN <<1>> ELSE LET p == Pow3(n - 1) IN Append(p, GMul(p[Len(p)], 3))
Exp3 == TLCEval(Pow3(254))                      \* Exp3[i+1] = 3^i
Log3 == TLCEval([x \in 1..255 |-> (CHOOSE i \in 0..254 : Exp3[i + 1] = x)])
Inv(x) == IF x = 0 THEN 0 ELSE Exp3[((255 - Log3[x]) % 255) + 1]
Rot(b, k) == ((b * 2^k) % 256) + ((b * 2^k) \div 256)
SBox == TLCEval([x \in 0..255 |-> LET b == Inv(x) IN X4(b, Rot(b, 1), Rot(b, 2), X4(Rot(b, 3), Rot(b, 4), 99, 0))])
InvSBox == TLCEval([y \in 0..255 |-> CHOOSE x \in 0..255 : SBox[x] = y])
Mul(k) == TLCEval([x \in 0..255 |-> GMul(x, k)])
M2 == Mul(2)
M3 == Mul(3)
M9 == Mul(9)
M11 == Mul(11)
M13 == Mul(13)
M14 == Mul(14)

XorB(a, b) == TLCEval([i \in 1..16 |-> a[i] ^^ b[i]])
(* key schedule: 44 words of 4 bytes *)
RECURSIVE RCon(_)
RCon(i) == IF i = 1 THEN 1 ELSE XT(RCon(i - 1))
RCons == [i \in 1..10 |-> RCon(i)]
RECURSIVE Expand(_)
Expand(w) ==
  IF Len(w) = 44 THEN w
  ELSE LET i == Len(w)  t == w[i]
           u == IF i % 4 = 0 THEN <<SBox[t[2]] ^^ RCons[i \div 4], SBox[t[3]], SBox[t[4]], SBox[t[1]]>> ELSE t
       IN Expand(TLCEval(Append(w, [j \in 1..4 |-> w[i - 3][j] ^^ u[j]])))
Schedule(k) == LET w == TLCEval(Expand([i \in 1..4 |-> SubSeq(k, 4 * i - 3, 4 * i)]))
               IN TLCEval([r \in 1..11 |-> w[4 * r - 3] \o w[4 * r - 2] \o w[4 * r - 1] \o w[4 * r]])

(* state byte i (1-based): column (i-1) \div 4, row (i-1) % 4 *)
SubShift(s) == TLCEval([i \in 1..16 |-> SBox[s[((4 * ((i - 1) % 4) + (i - 1)) % 16) + 1]]])
InvSubShift(s) == TLCEval([i \in 1..16 |-> InvSBox[s[((12 * ((i - 1) % 4) + (i - 1)) % 16) + 1]]])
At(s, i, d) == s[4 * ((i - 1) \div 4) + ((i - 1 + d) % 4) + 1]
MixCols(s) == TLCEval([i \in 1..16 |-> X4(M2[At(s, i, 0)], M3[At(s, i, 1)], At(s, i, 2), At(s, i, 3))])
InvMixCols(s) == TLCEval([i \in 1..16 |-> X4(M14[At(s, i, 0)], M11[At(s, i, 1)], M13[At(s, i, 2)], M9[At(s, i, 3)])])

RECURSIVE EncR(_, _, _)
EncR(s, ks, r) == IF r = 11 THEN XorB(SubShift(s), ks[11])
                  ELSE EncR(XorB(MixCols(SubShift(s)), ks[r]), ks, r + 1)
EncBlock(b, ks) == EncR(XorB(b, ks[1]), ks, 2)
RECURSIVE DecR(_, _, _)
DecR(s, ks, r) == IF r = 1 THEN XorB(InvSubShift(s), ks[1])
                  ELSE DecR(InvMixCols(XorB(InvSubShift(s), ks[r])), ks, r - 1)
DecBlock(b, ks) == DecR(XorB(b, ks[11]), ks, 10)

(* one call of the chained cipher: <<output, chaining vector afterwards>> *)
RECURSIVE CbcEnc(_, _, _)
CbcEnc(inp, ks, iv) ==
  IF inp = <<>> THEN <<<<>>, iv>>
  ELSE LET c == TLCEval(EncBlock(XorB(SubSeq(inp, 1, 16), iv), ks))
           r == CbcEnc(SubSeq(inp, 17, Len(inp)), ks, c)
       IN <<c \o r[1], r[2]>>
RECURSIVE CbcDec(_, _, _)
CbcDec(inp, ks, iv) ==
  IF inp = <<>> THEN <<<<>>, iv>>
  ELSE LET b == SubSeq(inp, 1, 16)
           r == CbcDec(SubSeq(inp, 17, Len(inp)), ks, b)
       IN <<XorB(DecBlock(b, ks), iv) \o r[1], r[2]>>

(* FIPS 197 appendix C.1 *)
FipsKey == [i \in 1..16 |-> i - 1]
FipsIn  == [i \in 1..16 |-> 17 * (i - 1)]
FipsOut == <<105, 196, 224, 216, 106, 123, 4, 48, 216, 205, 183, 128, 112, 180, 197, 90>>
ASSUME EncBlock(FipsIn, Schedule(FipsKey)) = FipsOut
ASSUME DecBlock(FipsOut, Schedule(FipsKey)) = FipsIn
==========================================================================
