----------------------------- MODULE FileTrace -----------------------------
(* The file transfer samples: a server that offers one file, the client    *)
(* that downloads it over several connections, and plain clients ("raw")   *)
(* that speak the protocol to the server themselves, or servers of every   *)
(* kind that speak it to the client.  Work thread k mod nt serves the k-th *)
(* connection, one connection at a time.                                   *)
EXTENDS TraceBase, Adler
VARIABLES tr, l, cl, known, client, harm
vars == <<cl, known, client, harm>>
C == Traces[tr].cfg
Size == RLen(C.src)
New == [st |-> "idle", off |-> 0, n |-> 0, pos |-> 0, bad |-> FALSE, over |-> FALSE, got |-> FALSE, may |-> FALSE, fin |-> "no", eof |-> FALSE]
(* known: raw connections that have certainly been forgotten by the server; client: none, run, done *)
Init == tr \in 1..NT /\ l = 1 /\ cl = <<>> /\ known = {} /\ client = "none" /\ harm = FALSE
Add(f, k, v) == [x \in (DOMAIN f) \cup {k} |-> IF x = k THEN v ELSE f[x]]
Gone(k) == cl[k].eof \/ cl[k].fin # "no"
(* it may be turned away when its work thread may still be busy with another one *)
MayRefuse(k) == client # "none" \/ \E j \in DOMAIN cl : j < k /\ j % C.nt = k % C.nt /\ j \notin known
Valid(off, n) == n >= 0 /\ off >= 0 /\ off <= Size /\ n <= Size - off
Part(off, n) == RTake(RDrop(C.src, off), n)
Upd(k, c) == cl' = [cl EXCEPT ![k] = c]
Only == UNCHANGED <<known, client, harm>>
Step(e) ==
  (* ends of connections between the client and a server of the environment *)
  CASE e.e \in {"pe", "px", "pc", "prst"} /\ e.k \notin DOMAIN cl -> UNCHANGED vars
    [] e.e = "cc" -> e.ok /\ e.k \notin DOMAIN cl /\ cl' = Add(cl, e.k, [New EXCEPT !.may = MayRefuse(e.k)]) /\ Only
    [] e.e = "qi" -> LET c == cl[e.k] IN Upd(e.k, IF c.st = "idle" THEN [c EXCEPT !.st = "info"] ELSE [c EXCEPT !.over = TRUE]) /\ Only
    [] e.e = "qf" -> LET c == cl[e.k] IN c.st = "idle" /\ Upd(e.k, [c EXCEPT !.st = "frag", !.off = e.off, !.n = e.n, !.pos = e.off, !.bad = ~Valid(e.off, e.n)]) /\ Only
    [] e.e = "ri" -> LET c == cl[e.k] IN c.st = "info" /\ e.n = Size /\ e.nt = C.nt /\ e.nl = 8 /\ e.name /\ Upd(e.k, [c EXCEPT !.st = "idle", !.got = TRUE]) /\ Only
    [] e.e = "rb" -> LET c == cl[e.k] IN c.st = "frag" /\ ~c.bad /\ e.off = c.off /\ e.n = c.n /\ Upd(e.k, [c EXCEPT !.st = "data", !.got = TRUE]) /\ Only
    [] e.e = "rd" -> LET c == cl[e.k] IN c.st = "data" /\ c.pos + e.n <= c.off + c.n /\ e.d = Part(c.pos, e.n) /\ Upd(e.k, [c EXCEPT !.pos = @ + e.n]) /\ Only
    [] e.e = "re" -> LET c == cl[e.k] IN c.st = "data" /\ c.pos = c.off + c.n /\ <<e.hi, e.lo>> = AdlerRuns(AdlerInit, Part(c.off, c.n)) /\ Upd(e.k, [c EXCEPT !.st = "done"]) /\ Only
    [] e.e \in {"pe", "px"} -> LET c == cl[e.k] IN /\ \/ c.fin # "no" \/ c.bad \/ c.over
                                                      \/ c.may /\ ~c.got
                                                   /\ Upd(e.k, [c EXCEPT !.eof = TRUE]) /\ Only
    [] e.e \in {"pc", "prst"} -> cl' = [cl EXCEPT ![e.k].fin = "gone"] /\ Only
    [] e.e = "ph" -> cl' = [cl EXCEPT ![e.k].fin = IF @ = "no" THEN "half" ELSE @] /\ Only
    (* nothing moves any more: every raw client has its answer *)
    [] e.e = "quiet" -> /\ \A k \in DOMAIN cl : LET c == cl[k] IN
                              c.fin = "gone" \/ (IF c.bad \/ c.fin = "half" THEN c.eof ELSE c.eof \/ c.st \in {"idle", "done"})
                        /\ known' = {k \in DOMAIN cl : Gone(k)} /\ client' = (IF client = "done" THEN "none" ELSE client) /\ UNCHANGED <<cl, harm>>
    [] e.e = "harm" -> harm' = TRUE /\ UNCHANGED <<cl, known, client>>
    [] e.e \in {"sqi", "ac"} -> UNCHANGED vars
    (* the client asks for parts of the file only *)
    [] e.e = "sqf" -> Valid(e.off, e.n) /\ UNCHANGED vars
    [] e.e = "cstart" -> client # "run" /\ client' = "run" /\ UNCHANGED <<cl, known, harm>>
    (* the download succeeds unless another one was in its way or the server is bad, and never pretends to have succeeded *)
    [] e.e = "out" -> /\ client = "run" /\ client' = "done" /\ UNCHANGED <<cl, known, harm>>
                      /\ (e.r = 0 => e.ex /\ ~harm /\ e.parts = 0)
                      /\ (e.r # 0 => harm \/ C.raw)
                      /\ (e.ex => e.n = Size /\ e.d = C.src)
    [] e.e = "fin" -> client # "run" /\ UNCHANGED vars
    [] OTHER -> FALSE
Next == l <= Len(Traces[tr].ev) /\ l' = l + 1 /\ tr' = tr /\ Step(Traces[tr].ev[l])
Progress == Reached(tr, l)
============================================================================
