---------------------------- MODULE AdlerTrace ----------------------------
(* A running Adler-32 checksum over segments <<first, step, count>>       *)
(* (step 0 or 1 modulo 256).                                              *)
EXTENDS TraceBase, Adler
VARIABLES tr, l, st
N == 65521
RECURSIVE MulM(_, _)
MulM(a, b) == IF b = 0 THEN 0 ELSE (((MulM(a, b \div 2) * 2) % N) + (IF b % 2 = 1 THEN a ELSE 0)) % N
Tri(n) == IF n % 2 = 0 THEN MulM((n \div 2) % N, (n + 1) % N) ELSE MulM(n % N, ((n + 1) \div 2) % N)
Const(s, v, n) == << (s[1] + MulM(s[2], n % N) + MulM(v, Tri(n))) % N, (s[2] + MulM(v, n % N)) % N >>
RECURSIVE ConstDef(_, _, _)
ConstDef(s, v, n) == IF n = 0 THEN s ELSE ConstDef(AdlerByte(s, v), v, n - 1)
ASSUME \A v \in {0, 1, 255} : \A n \in {1, 2, 15, 16, 700} : Const(<<777, 65000>>, v, n) = ConstDef(<<777, 65000>>, v, n)
(* values v, v+1, ... modulo 256: AdlerSeg on each piece that does not wrap *)
RECURSIVE Ramp(_, _, _)
Ramp(s, v, n) == IF n = 0 THEN s ELSE LET k == IF n < 256 - v THEN n ELSE 256 - v IN Ramp(AdlerSeg(s, v, k), (v + k) % 256, n - k)
RECURSIVE Segs(_, _)
Segs(s, d) == IF d = <<>> THEN s
              ELSE Segs(IF d[1][2] = 0 THEN Const(s, d[1][1], d[1][3]) ELSE Ramp(s, d[1][1], d[1][3]), Tail(d))
Init == tr \in 1..NT /\ l = 1 /\ st = AdlerInit
Step(e) ==
  \/ e.e = "init" /\ st' = <<e.hi, e.lo>>
  \/ e.e = "sum" /\ st' = Segs(st, e.d) /\ <<e.hi, e.lo>> = st'
  \/ e.e = "fin" /\ st' = st
Next == /\ l <= Len(Traces[tr].ev) /\ l' = l + 1 /\ tr' = tr /\ Step(Traces[tr].ev[l])
Progress == Reached(tr, l)
===========================================================================
