------------------------------ MODULE Adler ------------------------------
(* Adler-32 (RFC 1950): state <<hi, lo>>. *)
EXTENDS Naturals, Sequences, Runs
AdlerByte(s, x) == LET a == (s[2] + x) % 65521 IN <<(s[1] + a) % 65521, a>>
(* n bytes with values v, v+1, ... (mod 251), by definition ... *)
RECURSIVE AdlerRunDef(_, _, _)
AdlerRunDef(s, v, n) == IF n = 0 THEN s ELSE AdlerRunDef(AdlerByte(s, v), IF v >= 250 THEN 0 ELSE v + 1, n - 1)
(* ... and in closed form for a segment of k bytes that does not wrap around *)
AdlerSeg(s, v, k) ==
    << (s[1] + k * s[2] + v * ((k * (k + 1)) \div 2) + ((k - 1) * k * (k + 1)) \div 6) % 65521,
       (s[2] + k * v + (k * (k - 1)) \div 2) % 65521 >>
RECURSIVE AdlerRun(_, _, _)
AdlerRun(s, v, n) ==
    IF n = 0 THEN s
    ELSE LET k == IF v > 250 THEN 1 ELSE IF n < 251 - v THEN n ELSE 251 - v
         IN  AdlerRun(AdlerSeg(s, v, k), (v + k) % 251, n - k)
ASSUME \A v \in {0, 1, 100, 249, 250} : \A n \in {0, 1, 2, 3, 151, 251, 252, 600} :
          AdlerRun(<<777, 65000>>, v, n) = AdlerRunDef(<<777, 65000>>, v, n)
RECURSIVE AdlerRuns(_, _)
AdlerRuns(s, c) == IF c = <<>> THEN s ELSE AdlerRuns(AdlerRun(s, c[1][1], c[1][2]), Tail(c))
AdlerInit == <<0, 1>>
==========================================================================
