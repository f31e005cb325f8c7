---- MODULE Ports ----
(* C09: operators of a device and the routing of their signals over its ports.
   c.nt, c.nr: numbers of transmit and receive ports; c.pw: transmit amplitude of the device;
   c.ops[o]: [tall, tp, tm] transmit selection (all ports, or the sequence tp) and the sent stream matrix tm (rows of [re, im]),
   [rall, rp] receive selection. State: the selections (they may be changed) and the two operator lists. *)
EXTENDS Naturals, Integers, Sequences, FiniteSets, TLC
CONSTANTS MaxPorts

Range(q) == {q[i] : i \in 1..Len(q)}
Z == <<0, 0>>
At(m, i, j) == IF i \in 1..Len(m) /\ j \in 1..Len(m[i]) THEN m[i][j] ELSE Z
Add(a, b) == <<a[1] + b[1], a[2] + b[2]>>
Width(m) == IF Len(m) = 0 THEN 0 ELSE Len(m[1])
Max(a, b) == IF a > b THEN a ELSE b
RECURSIVE MaxW(_, _)
MaxW(ms, i) == IF i = 0 THEN 0 ELSE Max(Width(ms[i]), MaxW(ms, i - 1))
RECURSIVE SumAt(_, _, _, _)
SumAt(ms, i, p, j) == IF i = 0 THEN Z ELSE Add(At(ms[i], p, j), SumAt(ms, i - 1, p, j))

Init0(c) == [nt |-> c.nt, nr |-> c.nr, pw |-> c.pw, tm |-> [o \in 1..Len(c.ops) |-> c.ops[o].tm],
             sel |-> [o \in 1..Len(c.ops) |-> [tall |-> c.ops[o].tall, tp |-> c.ops[o].tp, rall |-> c.ops[o].rall, rp |-> c.ops[o].rp]],
             tx |-> <<>>, rx |-> <<>>]
Op0(ta, tp, tm, ra, rp) == [tall |-> ta, tp |-> tp, tm |-> tm, rall |-> ra, rp |-> rp]
InitStates == {Init0([nt |-> 2, nr |-> 2, pw |-> 2, ops |-> <<
   Op0(TRUE, <<>>, <<<< <<1, 0>>, <<0, 1>> >>, << <<2, 0>>, <<0, 0>> >>>>, TRUE, <<>>),
   Op0(FALSE, <<2>>, <<<< <<10, 0>>, <<20, 0>>, <<0, 30>> >>>>, FALSE, <<2>>),
   Op0(FALSE, <<2, 1>>, <<<< <<100, 0>> >>, << <<0, 200>> >>>>, FALSE, <<2, 1>>) >>])}
TSel(s, o) == IF s.sel[o].tall THEN [i \in 1..s.nt |-> i] ELSE s.sel[o].tp
RSel(s, o) == IF s.sel[o].rall THEN [i \in 1..s.nr |-> i] ELSE s.sel[o].rp
(* sample j sent by operator o to port p *)
RECURSIVE Sent(_, _, _, _, _)
Sent(s, o, i, p, j) == IF i = 0 THEN Z ELSE Add(IF TSel(s, o)[i] = p THEN At(s.tm[o], i, j) ELSE Z, Sent(s, o, i - 1, p, j))
RECURSIVE Out(_, _, _, _)
Out(s, k, p, j) == IF k = 0 THEN Z ELSE Add(Sent(s, s.tx[k], Len(TSel(s, s.tx[k])), p, j), Out(s, k - 1, p, j))
Amp(s, z) == <<s.pw * z[1], s.pw * z[2]>>
OutW(s) == MaxW([k \in 1..Len(s.tx) |-> s.tm[s.tx[k]]], Len(s.tx))
Emitted(s) == [p \in 1..s.nt |-> [j \in 1..OutW(s) |-> Amp(s, Out(s, Len(s.tx), p, j))]]
(* absent transmissions (operators in e.mute) contribute nothing and leave the others on their own ports *)
Heard(s, e) == [s EXCEPT !.tx = SelectSeq(@, LAMBDA o : o \notin Range(e.mute))]
Received(s, o, ms) == [i \in 1..Len(RSel(s, o)) |-> [j \in 1..MaxW(ms, Len(ms)) |-> SumAt(ms, Len(ms), RSel(s, o)[i], j)]]
(* equal apart from trailing silence *)
Same(a, b) == Len(a) = Len(b) /\ \A i \in 1..Len(a) : \A j \in 1..Max(Len(a[i]), Len(b[i])) : At(a, i, j) = At(b, i, j)

Drop(q, o) == SelectSeq(q, LAMBDA x : x # o)
Ins(q, o) == IF o \in Range(q) THEN q ELSE Append(q, o)
Post(s, e) ==
  CASE e.op = "add" -> [s EXCEPT !.tx = IF e.t THEN Ins(@, e.o) ELSE @, !.rx = IF e.r THEN Ins(@, e.o) ELSE @]
    [] e.op = "rem" -> [s EXCEPT !.tx = IF e.t THEN Drop(@, e.o) ELSE @, !.rx = IF e.r THEN Drop(@, e.o) ELSE @]
    [] e.op = "tsel" -> [s EXCEPT !.sel[e.o].tall = e.all, !.sel[e.o].tp = e.p]
    [] e.op = "rsel" -> [s EXCEPT !.sel[e.o].rall = e.all, !.sel[e.o].rp = e.p]
    [] OTHER -> s
Bad(s, e) ==
  IF e.exc # "" THEN {"unexpected-exception"}
  ELSE CASE e.op = "transmit" ->
             (IF e.n > OutW(Heard(s, e)) \/ ~Same(e.m, Emitted(Heard(s, e))) THEN {"output-is-not-the-sum-of-the-port-selections"} ELSE {})
             \cup (IF [k \in 1..Len(e.ts) |-> e.ts[k].o] # s.tx THEN {"wrong-transmissions-reported"} ELSE {})
             \cup (IF \E k \in 1..Len(e.ts) : ~Same(e.ts[k].m, s.tm[e.ts[k].o]) THEN {"transmission-altered"} ELSE {})
             \cup (IF \E o \in 1..Len(e.own) : ~Same(e.own[o], s.tm[o]) THEN {"operator-signal-altered"} ELSE {})
        [] e.op = "receive" ->
             (IF [k \in 1..Len(e.rs) |-> e.rs[k].o] # s.rx THEN {"wrong-receptions-reported"} ELSE {})
             \cup (IF \E k \in 1..Len(e.rs) : ~Same(e.rs[k].m, Received(s, e.rs[k].o, e.imp)) THEN {"reception-is-not-the-selected-ports"} ELSE {})
             \cup (IF Len(e.imp2) # Len(e.imp) \/ \E i \in 1..Len(e.imp2) : ~Same(e.imp2[i], e.imp[i]) THEN {"impinging-signal-altered"} ELSE {})
        [] e.op = "list" ->
             (IF e.tx # s.tx \/ e.txn # Len(s.tx) THEN {"wrong-transmitter-list"} ELSE {})
             \cup (IF e.rx # s.rx \/ e.rxn # Len(s.rx) THEN {"wrong-receiver-list"} ELSE {})
             \cup (IF Range(e.tin) # Range(s.tx) \/ Range(e.rin) # Range(s.rx) THEN {"wrong-membership"} ELSE {})
        [] OTHER -> {}
N(s) == Len(s.sel)
Imp == {<< <<<< <<1, 0>>, <<2, 0>> >>, << <<0, 3>>, <<4, 0>> >>>> >>,
        << <<<< <<1, 0>>, <<2, 0>> >>, << <<0, 3>>, <<4, 0>> >>>>, <<<< <<5, 0>>, <<0, 0>>, <<7, 0>> >>, << <<0, 0>>, <<0, 6>>, <<0, 0>> >>>> >>}
Ops(s) ==
  {[op |-> o2, o |-> o, t |-> tr[1], r |-> tr[2], exc |-> ""] : o2 \in {"add", "rem"}, o \in 1..N(s), tr \in {<<TRUE, FALSE>>, <<FALSE, TRUE>>, <<TRUE, TRUE>>}}
  \cup {[op |-> "transmit", exc |-> "", mute |-> <<>>, n |-> OutW(s), m |-> Emitted(s), own |-> s.tm, ts |-> [k \in 1..Len(s.tx) |-> [o |-> s.tx[k], m |-> s.tm[s.tx[k]]]]]}
  \cup {[op |-> "receive", exc |-> "", imp |-> q, imp2 |-> q, rs |-> [k \in 1..Len(s.rx) |-> [o |-> s.rx[k], m |-> Received(s, s.rx[k], q)]]] : q \in Imp}
  \cup {[op |-> "rsel", o |-> 2, all |-> FALSE, p |-> p, exc |-> ""] : p \in {<<1>>, <<2>>}}
Bounded(s) == TRUE
InvBad(s) ==
  (IF Cardinality(Range(s.tx)) # Len(s.tx) \/ Cardinality(Range(s.rx)) # Len(s.rx) THEN {"operator-listed-twice"} ELSE {})
  (* the emitted power depends on the set of operators only, not on their order *)
  \cup (IF Len(s.tx) >= 2 /\ Emitted(s) # Emitted([s EXCEPT !.tx = [k \in 1..Len(s.tx) |-> s.tx[Len(s.tx) + 1 - k]]]) THEN {"order-dependent-output"} ELSE {})
StepBad(s, t) ==
  LET Kept(q, r) == SelectSeq(r, LAMBDA x : x \in Range(q))
      Still(q, r) == SelectSeq(q, LAMBDA x : x \in Range(r)) IN
  IF Kept(s.tx, t.tx) # Still(s.tx, t.tx) \/ Kept(s.rx, t.rx) # Still(s.rx, t.rx) THEN {"list-reordered"} ELSE {}
====
