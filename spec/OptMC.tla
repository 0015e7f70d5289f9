------------------------------- MODULE OptMC -------------------------------
(* Every short command line over a small vocabulary, with every combination *)
(* of flags: the grammar loses, invents and reorders nothing, spelling      *)
(* rules are respected and clumped options mean what they mean one by one.  *)
EXTENDS Opt, TLC
CONSTANT MaxArgs
VARIABLES st, argv, used, last
vars == <<st, argv, used, last>>
\* a = 97, b = 98, c = 99, x = 120
Tab == << [id |-> 1, text |-> <<45, 97>>, type |-> None],            \* -a
          [id |-> 2, text |-> <<45, 98>>, type |-> None],            \* -b
          [id |-> 3, text |-> <<45, 99>>, type |-> ReqCmb],          \* -c
          [id |-> 4, text |-> <<45, 45, 97, 98>>, type |-> ReqSep],  \* --ab
          [id |-> 5, text |-> <<45, 45, 97, 99>>, type |-> OptArg],  \* --ac
          [id |-> 6, text |-> <<120>>, type |-> Multi] >>            \* x
Words == { <<45, 97>>, <<45, 97, 98>>, <<45, 98, 120>>, <<45, 99, 97>>, <<45, 65>>, <<45, 45, 97>>, <<45, 45, 97, 98>>,
           <<45, 45, 97, 99, 61, 98>>, <<45, 97, 61, 97>>, <<120>>, <<98>>, <<>> }
Flags == [exact : BOOLEAN, short : BOOLEAN, clump : BOOLEAN, all : {TRUE}, noerr : BOOLEAN, pedantic : {TRUE}, is : BOOLEAN, il : {FALSE}, iw : {FALSE}]
Init == /\ argv \in UNION {[1..n -> Words] : n \in 0..MaxArgs} /\ \E fl \in Flags : st = Start(Tab, fl, argv)
        /\ used = <<>> /\ last = Res(TRUE, 0, 0, <<>>, NoArg)
Step == LET x == Advance(st) n == Len(st.rest) + Len(st.files) - Len(x.st.rest) - Len(x.st.files) IN
        /\ last.r /\ st' = x.st /\ last' = x.res /\ argv' = argv /\ used' = Append(used, n)
Args == LET k == Take(st, 1) IN last.r /\ last.id = 6 /\ k = 1 /\ st' = Drop(st, 1) /\ used' = Append(used, 1) /\ last' = [last EXCEPT !.id = 0] /\ argv' = argv
Next == Step \/ Args
Spec == Init /\ [][Next]_vars /\ WF_vars(Step)
RECURSIVE Sum(_)
Sum(q) == IF q = <<>> THEN 0 ELSE Head(q) + Sum(Tail(q))
RECURSIVE SubSequence(_, _)
SubSequence(p, q) == IF p = <<>> THEN TRUE ELSE IF q = <<>> THEN FALSE
                     ELSE IF Head(p) = Head(q) THEN SubSequence(Tail(p), Tail(q)) ELSE SubSequence(p, Tail(q))
Conserved == Len(st.files) + Len(st.rest) + Sum(used) = Len(argv)
Ordered == SubSequence(st.files \o st.rest, argv)
Quiet == st.fl.noerr => last.err \notin {ErrInvalid, ErrMultiple, ErrData}
NoHyphenArgs == (~st.fl.noerr /\ last.r /\ last.id = 4 /\ last.err = 0) => (~SwitchLike(last.arg.a))
NoHyphenFiles == (~st.fl.noerr) => \A i \in 1..Len(st.files) : ~SwitchLike(st.files[i])
Spelled == (st.fl.exact /\ last.r /\ last.id \in {4, 5}) => \E i \in 1..Len(argv) : NameOf(argv[i]) = last.text
Done == ~last.r => (st.rest = <<>> /\ st.clump = <<>> /\ Advance(st).st = st /\ ~Advance(st).res.r)
Ends == <>(~last.r)
(* "-ab" is "-a -b" *)
RECURSIVE Ids(_, _)
Ids(s, k) == LET x == Advance(s) IN IF ~x.res.r \/ k = 0 THEN <<>> ELSE <<x.res.id>> \o Ids(x.st, k - 1)
Clumped == \A fl \in {f \in Flags : f.clump /\ f.exact} : \A p \in {<<97, 98>>, <<98, 97>>, <<97, 97>>} :
             Ids(Start(Tab, fl, << <<45>> \o p >>), 5) = Ids(Start(Tab, fl, << <<45, p[1]>>, <<45, p[2]>> >>), 5)
ASSUME Clumped
============================================================================
