---------------------------- MODULE ClockTrace ----------------------------
(* The clocks.  performance_time_now() reports whole microseconds since    *)
(* one origin common to all threads, read during the first call: every     *)
(* call narrows the interval in which that origin can lie, and it must     *)
(* never become empty.  utc_time_now() is the wall clock in microseconds,  *)
(* local_time_now() the civil date and time of the zone.  Instants are     *)
(* <<seconds, nanoseconds>>.                                               *)
EXTENDS TraceBase
VARIABLES tr, l, lo, hi, pend
Threads == 0..9
G == 1000000000
Norm(s, n) == IF n < 0 THEN <<s - 1, n + G>> ELSE IF n >= G THEN <<s + 1, n - G>> ELSE <<s, n>>
Sub(a, b) == Norm(a[1] - b[1], a[2] - b[2])
Leq(a, b) == a[1] < b[1] \/ (a[1] = b[1] /\ a[2] <= b[2])
MaxT(a, b) == IF Leq(a, b) THEN b ELSE a
MinT(a, b) == IF Leq(a, b) THEN a ELSE b
Micro(r) == <<r[1], r[2] * 1000>>             \* <<seconds, microseconds>> as an instant
Infinite == <<2000000000, 0>>
None == <<-1, 0>>
(* civil calendar *)
Leap(y) == (y % 4 = 0 /\ y % 100 # 0) \/ y % 400 = 0
YearDays(y) == IF Leap(y) THEN 366 ELSE 365
MonthDays(y, m) == CASE m = 2 -> IF Leap(y) THEN 29 ELSE 28 [] m \in {4, 6, 9, 11} -> 30 [] OTHER -> 31
RECURSIVE Year(_, _), Month(_, _, _)
Year(y, d) == IF d < YearDays(y) THEN <<y, d>> ELSE Year(y + 1, d - YearDays(y))
Month(y, m, d) == IF d < MonthDays(y, m) THEN <<y, m, d + 1>> ELSE Month(y, m + 1, d - MonthDays(y, m))
Date(sec) == LET yd == Year(1970, sec \div 86400) IN Month(yd[1], 1, yd[2])
P2(n) == IF n < 10 THEN "0" \o ToString(n) ELSE ToString(n)
Text(f, sec) == LET d == Date(sec)  t == sec % 86400
                    Y == ToString(d[1])  Mo == P2(d[2])  D == P2(d[3])
                    H == P2(t \div 3600)  Mi == P2((t \div 60) % 60)  S == P2(t % 60)
                IN CASE f = 0 -> Y \o Mo \o D \o "-" \o H \o Mi \o S
                     [] f = 1 -> Y \o "_" \o Mo \o "_" \o D \o "-" \o H \o ":" \o Mi \o ":" \o S
                     [] f = 2 -> H \o ":" \o Mi \o ":" \o S \o " " \o D \o "." \o Mo \o "." \o Y
Init == tr \in 1..NT /\ l = 1 /\ lo = None /\ hi = Infinite /\ pend = [t \in Threads |-> None]
Step(e) ==
  \/ e.e = "pinv" /\ pend[e.t] = None /\ pend' = [pend EXCEPT ![e.t] = e.at]
       \* the origin is read after the first invocation and before the first response
       /\ lo' = (IF lo = None THEN e.at ELSE lo) /\ UNCHANGED hi
  \/ e.e = "pres" /\ pend[e.t] # None /\ e.r[1] >= 0
       /\ LET b == pend[e.t]  c == e.at
              \* floor((x - o) / 1us) = r for some reading x in b..c
              nlo == MaxT(lo, Sub(Sub(b, Micro(e.r)), <<0, 999>>))
              nhi == MinT(MinT(hi, c), Sub(c, Micro(e.r)))
          IN /\ lo' = nlo /\ hi' = nhi /\ Leq(nlo, nhi)
       /\ pend' = [pend EXCEPT ![e.t] = None]
  \/ e.e = "utc" /\ Leq(e.b, <<e.r[1], e.r[2] * 1000 + 999>>) /\ Leq(Micro(e.r), e.c) /\ UNCHANGED <<lo, hi, pend>>
  \/ e.e = "loc" /\ ~e.beyond /\ e.b[1] <= e.c[1]
       /\ \E s \in {e.b[1]} \cup {e.c[1]} \cup (e.b[1]..Min2(e.c[1], e.b[1] + 5)) : e.r = Text(e.f, s + Traces[tr].cfg.off)
       /\ UNCHANGED <<lo, hi, pend>>
  \/ e.e = "fin" /\ UNCHANGED <<lo, hi, pend>>
Next == /\ l <= Len(Traces[tr].ev) /\ l' = l + 1 /\ tr' = tr /\ Step(Traces[tr].ev[l])
Progress == Reached(tr, l)
============================================================================
