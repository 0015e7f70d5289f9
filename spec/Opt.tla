-------------------------------- MODULE Opt --------------------------------
(* The command line grammar of CSimpleOpt.  Texts are sequences of character *)
(* codes.  The state of a parse: the options table, the flags, what is still  *)
(* to be looked at (rest), the rest of a string of clumped options (clump),   *)
(* and the files found so far; Advance gives the next state and the result.   *)
EXTENDS Integers, Sequences, FiniteSets
Dash == 45
Equ == 61
None == "NONE"  ReqSep == "SEP"  ReqCmb == "CMB"  OptArg == "OPT"  Multi == "MULTI"
ErrInvalid == -1  ErrMultiple == -2  ErrArg == -3  ErrArgType == -4  ErrMissing == -5  ErrData == -6
NoArg == [has |-> FALSE, a |-> <<>>]
Arg(s) == [has |-> TRUE, a |-> s]
Lower(c) == IF c \in 65..90 THEN c + 32 ELSE c
RECURSIVE Hyphens(_)
Hyphens(s) == IF s # <<>> /\ s[1] = Dash THEN 1 + Hyphens(Tail(s)) ELSE 0
Body(s) == SubSeq(s, Hyphens(s) + 1, Len(s))
SwitchLike(s) == s # <<>> /\ s[1] = Dash
(* which letters of an option's text may be written in either case *)
AnyCase(fl, src) == IF ~SwitchLike(src) THEN fl.iw ELSE IF Len(src) = 2 /\ src[2] # Dash THEN fl.is ELSE fl.il
Same(fl, src, a, b) == IF AnyCase(fl, src) THEN Lower(a) = Lower(b) ELSE a = b
(* the text given matches the option's text perfectly, or is the beginning of its name *)
Prefix(fl, src, t) == /\ Hyphens(src) = Hyphens(t) /\ Len(t) <= Len(src)
                      /\ \A i \in 1..Len(t) : Same(fl, src, src[i], t[i])
Perfect(fl, src, t) == Prefix(fl, src, t) /\ Len(t) = Len(src)
Partial(fl, src, t) == Prefix(fl, src, t) /\ Len(t) < Len(src) /\ Body(t) # <<>>
Lookup(tab, fl, t) ==
  LET P == {i \in 1..Len(tab) : Perfect(fl, tab[i].text, t)}
      Q == {i \in 1..Len(tab) : Partial(fl, tab[i].text, t)} IN
  IF P # {} THEN CHOOSE i \in P : \A j \in P : i <= j
  ELSE IF fl.exact \/ Q = {} THEN ErrInvalid
  ELSE IF Cardinality(Q) = 1 THEN CHOOSE i \in Q : TRUE ELSE ErrMultiple
ExactOnly(fl) == [fl EXCEPT !.exact = TRUE, !.is = FALSE, !.il = FALSE, !.iw = FALSE]
EquAt(s) == {i \in 1..Len(s) : s[i] = Equ}
FirstEqu(s) == IF SwitchLike(s) /\ EquAt(s) # {} THEN CHOOSE i \in EquAt(s) : \A j \in EquAt(s) : i <= j ELSE 0
NameOf(s) == IF FirstEqu(s) = 0 THEN s ELSE SubSeq(s, 1, FirstEqu(s) - 1)
ArgOf(s) == IF FirstEqu(s) = 0 THEN NoArg ELSE Arg(SubSeq(s, FirstEqu(s) + 1, Len(s)))
(* how one argument of the command line reads *)
File == [k |-> "file", i |-> 0, arg |-> NoArg, text |-> <<>>]
Read(tab, fl, s) ==
  LET n == Lookup(tab, fl, NameOf(s)) IN
  IF n > 0 THEN [File EXCEPT !.k = "opt", !.i = n, !.arg = ArgOf(s)]
  ELSE LET long == ~ArgOf(s).has /\ Len(s) >= 3 /\ s[1] = Dash /\ s[2] # Dash
           m == IF long /\ fl.short THEN Lookup(tab, fl, SubSeq(s, 1, 2)) ELSE ErrInvalid IN
       IF m > 0 /\ tab[IF m > 0 THEN m ELSE 1].type \in {ReqCmb, OptArg} THEN [File EXCEPT !.k = "opt", !.i = m, !.arg = Arg(SubSeq(s, 3, Len(s)))]
       ELSE IF long /\ fl.clump THEN [File EXCEPT !.k = "clump", !.text = SubSeq(s, 2, Len(s))]
       ELSE IF ~fl.noerr /\ SwitchLike(s) THEN [File EXCEPT !.k = "bad", !.i = n, !.text = NameOf(s), !.arg = ArgOf(s)]
       ELSE File
Res(r, err, id, text, arg) == [r |-> r, err |-> err, id |-> id, text |-> text, arg |-> arg]
(* n arguments that follow *)
Take(st, n) == IF n > Len(st.rest) THEN ErrMissing
               ELSE IF ~st.fl.noerr /\ \E i \in 1..n : SwitchLike(st.rest[i]) THEN ErrData ELSE n
Drop(st, n) == [st EXCEPT !.rest = SubSeq(st.rest, n + 1, Len(st.rest))]
One(st, c) == \* one clumped option
  LET nm == <<Dash, c>>  n == Lookup(st.tab, ExactOnly(st.fl), nm)  after == Tail(st.clump) IN
  IF n < 0 THEN [st |-> [st EXCEPT !.clump = after], res |-> Res(TRUE, n, -1, nm, NoArg)]
  ELSE LET o == st.tab[n] IN
       IF o.type = None THEN [st |-> [st EXCEPT !.clump = after], res |-> Res(TRUE, 0, o.id, o.text, NoArg)]
       ELSE IF o.type = ReqCmb /\ after # <<>> THEN [st |-> [st EXCEPT !.clump = <<>>], res |-> Res(TRUE, 0, o.id, o.text, Arg(after))]
       ELSE [st |-> [st EXCEPT !.clump = after], res |-> Res(TRUE, ErrMissing, -1, o.text, NoArg)]
RECURSIVE Advance(_)
Advance(st) ==
  IF st.clump # <<>> THEN
     LET x == One(st, Head(st.clump)) IN
     IF st.fl.noerr /\ x.res.err \in {ErrInvalid, ErrMultiple} THEN Advance(x.st) ELSE x
  ELSE LET NotFile == {i \in 1..Len(st.rest) : Read(st.tab, st.fl, st.rest[i]).k # "file"} IN
     IF NotFile = {} THEN [st |-> [st EXCEPT !.files = @ \o st.rest, !.rest = <<>>], res |-> Res(FALSE, 0, -1, <<>>, NoArg)]
     ELSE LET p == CHOOSE i \in NotFile : \A j \in NotFile : i <= j
              w == Read(st.tab, st.fl, st.rest[p])
              s2 == [st EXCEPT !.files = @ \o SubSeq(st.rest, 1, p - 1), !.rest = SubSeq(st.rest, p + 1, Len(st.rest))] IN
          IF w.k = "clump" THEN Advance([s2 EXCEPT !.clump = w.text])
          ELSE IF w.k = "bad" THEN [st |-> s2, res |-> Res(TRUE, w.i, -1, w.text, w.arg)]
          ELSE LET o == st.tab[w.i]
                   err == IF o.type = None /\ w.arg.has THEN ErrArg
                          ELSE IF o.type = ReqSep /\ w.arg.has /\ st.fl.pedantic THEN ErrArgType
                          ELSE IF o.type = ReqCmb /\ ~w.arg.has THEN ErrMissing ELSE 0 IN
               IF o.type = ReqSep /\ ~w.arg.has
               THEN LET k == Take(s2, 1) IN
                    IF k = 1 THEN [st |-> Drop(s2, 1), res |-> Res(TRUE, 0, o.id, o.text, Arg(s2.rest[1]))]
                    ELSE [st |-> s2, res |-> Res(TRUE, k, o.id, o.text, NoArg)]
               ELSE [st |-> s2, res |-> Res(TRUE, err, o.id, o.text, w.arg)]
Stopped(st) == [st EXCEPT !.files = @ \o st.rest, !.rest = <<>>, !.clump = <<>>]
Start(tab, fl, argv) == [tab |-> tab, fl |-> fl, files |-> <<>>, clump |-> <<>>,
                         rest |-> IF fl.all \/ argv = <<>> THEN argv ELSE Tail(argv)]
============================================================================
