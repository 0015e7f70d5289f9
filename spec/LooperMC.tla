----------------------------- MODULE LooperMC -----------------------------
(* Design model of the loop's channels: slots with a free list, a poll     *)
(* that reports the slots which are ready and enabled, and a dispatch of    *)
(* that report during which callbacks delete, register, enable and disable *)
(* anything, while another thread enables and disables.  Slots freed in a  *)
(* dispatch are only reusable after it.                                    *)
EXTENDS Naturals, Sequences, FiniteSets
CONSTANTS M,      \* slots
          R,      \* registrations overall
          Ops,    \* operations per callback
          F       \* operations of the other thread
VARIABLES chan, free, del, ready, list, snap, pc, ops, nreg, fops, bad, age
vars == <<chan, free, del, ready, list, snap, pc, ops, nreg, fops, bad, age>>
Slots == 1..M
Regs == 1..R
None == [reg |-> 0, on |-> FALSE]
(* ready: registrations (descriptors) whose descriptor is readable; list: slots still to dispatch;
   snap: the registrations the last poll reported *)
Init == /\ chan = [s \in Slots |-> IF s = 1 THEN [reg |-> 1, on |-> TRUE] ELSE None] /\ free = [i \in 1..(M - 1) |-> i + 1]
        /\ del = <<>> /\ ready = {} /\ list = <<>> /\ snap = {} /\ pc = "poll" /\ ops = 0 /\ nreg = 1 /\ fops = F /\ bad = FALSE /\ age = [r \in Regs |-> 0]
Live == {s \in Slots : chan[s].reg # 0}
SlotOf(r) == CHOOSE s \in Live : chan[s].reg = r
LiveRegs == {chan[s].reg : s \in Live}
ReadySlots == {s \in Live : chan[s].on /\ chan[s].reg \in ready}
Env == \E r \in LiveRegs : ready' = ready \cup {r} /\ r \notin ready /\ UNCHANGED <<chan, free, del, list, snap, pc, ops, nreg, fops, bad, age>>
Aged(ch) == [r \in Regs |-> IF \E s \in Slots : ch[s].reg = r /\ ch[s].on THEN age[r] ELSE 0]
Foreign == /\ fops > 0 /\ \E s \in Live, v \in BOOLEAN : chan[s].on # v /\ chan' = [chan EXCEPT ![s].on = v]
           /\ age' = Aged(chan') /\ fops' = fops - 1 /\ UNCHANGED <<free, del, ready, list, snap, pc, ops, nreg, bad>>
Orders(S) == {q \in [1..Cardinality(S) -> S] : \A i, j \in 1..Cardinality(S) : i # j => q[i] # q[j]}
Poll == /\ pc = "poll" /\ ReadySlots # {} /\ \E q \in Orders(ReadySlots) : list' = q
        /\ snap' = {chan[s].reg : s \in ReadySlots} /\ pc' = "disp"
        /\ age' = [r \in Regs |-> IF r \in {chan[s].reg : s \in ReadySlots} THEN age[r] + 1 ELSE 0]
        /\ UNCHANGED <<chan, free, del, ready, ops, nreg, fops, bad>>
(* the check and the call are not one step: the other thread may disable in between *)
Take == /\ pc = "disp" /\ list # <<>>
        /\ LET s == Head(list) IN
           /\ list' = Tail(list)
           /\ IF chan[s].reg # 0 /\ chan[s].on
              THEN /\ bad' = (bad \/ chan[s].reg \notin snap) /\ pc' = "cb" /\ ops' = Ops
                   /\ ready' = ready \ {chan[s].reg} /\ age' = [age EXCEPT ![chan[s].reg] = 0] /\ snap' = snap \ {chan[s].reg}
              ELSE UNCHANGED <<bad, pc, ops, ready, age, snap>>
        /\ UNCHANGED <<chan, free, del, nreg, fops>>
CbDelete(s) == /\ s \in Live /\ chan' = [chan EXCEPT ![s] = None] /\ del' = Append(del, s) /\ ready' = ready \ {chan[s].reg} /\ UNCHANGED <<free, nreg>>
CbRegister == /\ nreg < R /\ free # <<>> /\ chan' = [chan EXCEPT ![Head(free)] = [reg |-> nreg + 1, on |-> TRUE]] /\ free' = Tail(free) /\ nreg' = nreg + 1 /\ UNCHANGED <<del, ready>>
CbSwitch(s) == s \in Live /\ \E v \in BOOLEAN : chan[s].on # v /\ chan' = [chan EXCEPT ![s].on = v] /\ UNCHANGED <<free, del, nreg, ready>>
Cb == /\ pc = "cb" /\ ops > 0 /\ ops' = ops - 1 /\ (CbRegister \/ \E s \in Slots : CbDelete(s) \/ CbSwitch(s)) /\ age' = Aged(chan') /\ UNCHANGED <<list, snap, pc, fops, bad>>
CbEnd == pc = "cb" /\ pc' = "disp" /\ UNCHANGED <<chan, free, del, ready, list, snap, ops, nreg, fops, bad, age>>
DispEnd == /\ pc = "disp" /\ list = <<>> /\ free' = del \o free /\ del' = <<>> /\ pc' = "poll" /\ snap' = {} /\ UNCHANGED <<chan, ready, list, ops, nreg, fops, bad, age>>
(* the loop thread registers between polls too *)
OutReg == pc = "poll" /\ CbRegister /\ UNCHANGED <<list, snap, pc, ops, fops, bad, age>>
Next == Env \/ Foreign \/ Poll \/ Take \/ Cb \/ CbEnd \/ DispEnd \/ OutReg
Spec == Init /\ [][Next]_vars
(* a callback only for a registration the last poll reported, never for a deleted, recycled or disabled one *)
RightCallback == ~bad
(* slots are in use, free or waiting to become free: never two of these *)
Range(f) == {f[i] : i \in DOMAIN f}
SlotsOk == /\ Live \cap (Range(free) \cup Range(del)) = {} /\ Range(free) \cap Range(del) = {} /\ Len(free) + Len(del) + Cardinality(Live) = M
           /\ \A s, t \in Live : s # t => chan[s].reg # chan[t].reg
(* level triggered: what is ready and enabled is called in the same round *)
NoStarvation == \A r \in Regs : age[r] <= 1
============================================================================
