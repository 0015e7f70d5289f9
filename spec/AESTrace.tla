----------------------------- MODULE AESTrace -----------------------------
(* A cipher object with a key and two caller-supplied chaining vectors.   *)
EXTENDS TraceBase, AES
VARIABLES tr, l, ks, iv
DefaultIV == [i \in 1..16 |-> i - 1]
Init == tr \in 1..NT /\ l = 1 /\ ks = <<>> /\ iv = <<<<>>, <<>>>>
Cipher(e, res) ==
  /\ e.g                                  \* nothing outside the output was touched
  /\ e.out = res[1]
  /\ IF e.w = 2 THEN iv' = iv ELSE e.iv = res[2] /\ iv' = [iv EXCEPT ![e.w + 1] = res[2]]
  /\ ks' = ks
Vec(e) == IF e.w = 2 THEN DefaultIV ELSE iv[e.w + 1]
Step(e) ==
  \/ e.e = "key" /\ ks' = Schedule(e.k) /\ iv' = iv
  \/ e.e = "iv" /\ iv' = <<e.a, e.b>> /\ ks' = ks
  \/ e.e = "setiv" /\ iv' = [iv EXCEPT ![e.w + 1] = e.v] /\ ks' = ks
  \/ e.e = "enc" /\ Cipher(e, CbcEnc(e.in, ks, Vec(e)))
  \/ e.e = "dec" /\ Cipher(e, CbcDec(e.in, ks, Vec(e)))
  \/ e.e = "long" /\ e.pieces = e.once /\ e.back = e.plain          \* cutting a message up changes nothing; it comes back
                  /\ e.v1 = e.lastc /\ e.v2 = e.lastc /\ e.v3 = e.lastc \* the vector is the last block of cipher text
                  /\ \A i \in 1..Len(e.s) : e.s[i].o = CbcEnc(e.s[i].i, ks, e.s[i].p)[1]
                  /\ UNCHANGED <<ks, iv>>
  \/ e.e = "fin" /\ UNCHANGED <<ks, iv>>
Next == /\ l <= Len(Traces[tr].ev) /\ l' = l + 1 /\ tr' = tr /\ Step(Traces[tr].ev[l])
Progress == Reached(tr, l)
===========================================================================
