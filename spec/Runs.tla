------------------------------- MODULE Runs -------------------------------
(* Byte strings as sequences of runs <<b, n>>: n bytes b, b+1, ... mod 251. *)
(* Normal form: no empty run, and no run that continues its predecessor.    *)
EXTENDS Naturals, Sequences

RECURSIVE RLen(_)
RLen(c) == IF c = <<>> THEN 0 ELSE c[1][2] + RLen(Tail(c))

RAppend(c, b, n) ==
    IF n = 0 THEN c
    ELSE IF c # <<>> /\ b <= 250 /\ c[Len(c)][1] <= 250 /\ (c[Len(c)][1] + c[Len(c)][2]) % 251 = b
         THEN [c EXCEPT ![Len(c)] = <<@[1], @[2] + n>>]
         ELSE Append(c, <<b, n>>)

RECURSIVE RCat(_, _)
RCat(c, d) == IF d = <<>> THEN c ELSE RCat(RAppend(c, d[1][1], d[1][2]), Tail(d))

RECURSIVE RTake(_, _)
RTake(c, n) == IF n = 0 \/ c = <<>> THEN <<>>
               ELSE IF c[1][2] <= n THEN <<c[1]>> \o RTake(Tail(c), n - c[1][2])
               ELSE <<<<c[1][1], n>>>>

RECURSIVE RDrop(_, _)
RDrop(c, n) == IF n = 0 \/ c = <<>> THEN c
               ELSE IF c[1][2] <= n THEN RDrop(Tail(c), n - c[1][2])
               ELSE <<<<(c[1][1] + n) % 251, c[1][2] - n>>>> \o Tail(c)

(* position of the first byte v at or after offset 0, or -1 *)
RECURSIVE RFind(_, _, _)
RFind(c, v, pos) ==
    IF c = <<>> THEN 0 - 1
    ELSE LET b == c[1][1] n == c[1][2]
             d == IF b > 250 THEN (IF v = b THEN 0 ELSE n) ELSE IF v > 250 THEN n ELSE (v + 251 - b) % 251
         IN  IF d < n THEN pos + d ELSE RFind(Tail(c), v, pos + n)

RIsPrefix(p, c) == RLen(p) <= RLen(c) /\ p = RTake(c, RLen(p))
===========================================================================
