-------------------------- MODULE ClientAppTrace --------------------------
(* The interactive clients: what is typed goes to the server line by line   *)
(* (echo: the bare text, chat: a message per line), what the server sends   *)
(* is shown completely and in order (chat: one text per message), failed    *)
(* connects are retried, and the program ends when the server closes or the *)
(* input ends, with exit code 0.                                            *)
EXTENDS TraceBase
VARIABLES tr, l, typed, got, sent, shown, out, up, over, ended, part
vars == <<typed, got, sent, shown, out, up, over, ended, part>>
Chat == Traces[tr].cfg.chat
(* echo: one text; chat: a sequence of texts without the empty ones, which show nothing *)
None == IF Chat THEN <<>> ELSE ""
Add(x, s) == IF s = "" THEN x ELSE IF Chat THEN Append(x, s) ELSE x \o s
Prefix(a, b) == Len(a) <= Len(b) /\ a = SubSeq(b, 1, Len(a))
Init == tr \in 1..NT /\ l = 1 /\ typed = None /\ got = None /\ sent = None /\ shown = None /\ out = 0 /\ up = FALSE /\ over = "no" /\ ended = FALSE /\ part = 0
(* bytes of what the server means to send *)
Bytes(s) == Len(s) + (IF Chat THEN 4 ELSE 0)
Step(e) ==
  CASE e.e = "line" -> typed' = Add(typed, e.s) /\ UNCHANGED <<got, sent, shown, out, up, over, ended, part>>
    [] e.e = "attempt" -> UNCHANGED vars
    [] e.e = "ac" -> ~up /\ up' = TRUE /\ UNCHANGED <<typed, got, sent, shown, out, over, ended, part>>   \* one connection, never another one
    [] e.e = "pr" -> got' = Add(got, e.s) /\ Prefix(Add(got, e.s), typed) /\ UNCHANGED <<typed, sent, shown, out, up, over, ended, part>>
    [] e.e = "part" -> part' = e.n /\ UNCHANGED <<typed, got, sent, shown, out, up, over, ended>>
    [] e.e = "pmsg" -> sent' = Add(sent, e.s) /\ out' = out + Bytes(e.s) /\ UNCHANGED <<typed, got, shown, up, over, ended, part>>
    [] e.e = "psent" -> out' = out - e.n /\ UNCHANGED <<typed, got, sent, shown, up, over, ended, part>>
    [] e.e = "show" -> ~ended /\ shown' = Add(shown, e.s) /\ Prefix(Add(shown, e.s), sent) /\ UNCHANGED <<typed, got, sent, out, up, over, ended, part>>
    (* the server closes, half closes or resets; "un": it had not read everything, so the other end may see a reset *)
    [] e.e \in {"pc", "ph", "prst"} -> over' = (IF e.e = "prst" THEN "reset" ELSE IF e.e = "pc" /\ e.un > 0 THEN "reset" ELSE "closed") /\ UNCHANGED <<typed, got, sent, shown, out, up, ended, part>>
    [] e.e \in {"eot", "eoi"} -> over' = (IF over = "no" THEN "input" ELSE over) /\ UNCHANGED <<typed, got, sent, shown, out, up, ended, part>>
    [] e.e \in {"pe", "px"} -> over # "no" /\ UNCHANGED vars
    [] e.e = "exit" -> /\ e.r = 0 /\ over # "no" /\ ~ended /\ ended' = TRUE
                       /\ (over = "closed" /\ out = 0 => shown = sent)       \* all that came before the end was shown
                       /\ UNCHANGED <<typed, got, sent, shown, out, up, over, part>>
    [] e.e = "quiet" -> /\ (over = "no" => up /\ got = typed /\ part = 0 /\ (out = 0 => shown = sent))
                        /\ (over # "no" => ended)
                        /\ UNCHANGED vars
    [] e.e = "fin" -> UNCHANGED vars
    [] OTHER -> FALSE
Next == /\ l <= Len(Traces[tr].ev) /\ l' = l + 1 /\ tr' = tr /\ Step(Traces[tr].ev[l])
Progress == Reached(tr, l)
============================================================================
