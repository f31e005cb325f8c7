---- MODULE Links ----
(* C06: the channel link table of a simulation scenario.
   Devices 1..nd (reg[d]: registered with the scenario), channels 0..nc, 0 being the default channel.
   link[a][b] with a <= b is the channel assigned to the unordered pair {a,b}, -1 if none was assigned. *)
EXTENDS Naturals, Integers, Sequences, FiniteSets, TLC
CONSTANTS MaxDev, MaxCh

Init0(c) == [nd |-> c.nd, nc |-> c.nc, reg |-> [d \in 1..c.nd |-> FALSE], order |-> <<>>,
             link |-> [a \in 1..c.nd |-> [b \in 1..c.nd |-> -1]], act |-> [h \in 1..(c.nc + 1) |-> TRUE]]
InitStates == {Init0([nd |-> MaxDev, nc |-> MaxCh])}
Lo(a, b) == IF a < b THEN a ELSE b
Hi(a, b) == IF a < b THEN b ELSE a
Assigned(s, a, b) == s.link[Lo(a, b)][Hi(a, b)]
Serving(s, a, b) == IF Assigned(s, a, b) = -1 THEN 0 ELSE Assigned(s, a, b)
Range(q) == {q[i] : i \in 1..Len(q)}
Listed(s) == {0} \cup ({s.link[a][b] : a \in 1..s.nd, b \in 1..s.nd} \ {-1})
Known(s, a, b) == s.reg[a] /\ s.reg[b]
OfDevice(s, d, act) == {h \in {Serving(s, d, o) : o \in Range(s.order)} : act => s.act[h + 1]}
(* the channel serving each pair of a drop, as a matrix over the registered devices in order of addition *)
Used(s) == [i \in 1..Len(s.order) |-> [j \in 1..Len(s.order) |-> Serving(s, s.order[i], s.order[j])]]

Post(s, e) ==
  CASE e.op = "add" -> IF s.reg[e.a] THEN s ELSE [s EXCEPT !.reg[e.a] = TRUE, !.order = Append(@, e.a)]
    [] e.op = "set" -> IF Known(s, e.a, e.b) THEN [s EXCEPT !.link[Lo(e.a, e.b)][Hi(e.a, e.b)] = e.ch] ELSE s
    [] e.op = "gain" -> [s EXCEPT !.act[e.ch + 1] = e.on]
    [] OTHER -> s
Expect(s, e) ==
  CASE e.op = "add" -> ~s.reg[e.a]
    [] e.op \in {"set", "chan"} -> Known(s, e.a, e.b)
    [] e.op = "devch" -> s.reg[e.a]
    [] OTHER -> TRUE
Bag(s, q) == IF Range(q) # Listed(s) THEN {"wrong-channel-list"} ELSE IF Len(q) # Cardinality(Listed(s)) THEN {"channel-listed-repeatedly"} ELSE {}
Bad(s, e) ==
  IF e.exc # "" /\ Expect(s, e) THEN {"unexpected-exception"}
  ELSE IF e.exc = "" /\ ~Expect(s, e) THEN {"unregistered-accepted"}
  ELSE IF e.exc # "" THEN {}
  ELSE CASE e.op = "chan" -> IF e.ret # Serving(s, e.a, e.b) THEN {"wrong-channel"} ELSE {}
    [] e.op = "list" -> Bag(s, e.ret)
    [] e.op = "devch" -> IF Range(e.ret) # OfDevice(s, e.a, e.on) \/ Len(e.ret) # Cardinality(OfDevice(s, e.a, e.on)) THEN {"wrong-device-channels"} ELSE {}
    [] e.op = "realize" -> Bag(s, e.ret)
    [] e.op = "drop" -> (IF Len(e.ret) # Cardinality(Listed(s)) \/ Range(e.ret) # Listed(s) THEN {"not-realized-once-per-drop"} ELSE {})
                        \cup (IF e.used # Used(s) THEN {"pair-served-by-wrong-realization"} ELSE {})
    [] OTHER -> {}
Ops(s) ==
  {[op |-> "add", a |-> d, exc |-> IF s.reg[d] THEN "E" ELSE ""] : d \in 1..s.nd}
  \cup {[op |-> "set", a |-> a, b |-> b, ch |-> h, exc |-> IF Known(s, a, b) THEN "" ELSE "E"] : a \in 1..s.nd, b \in 1..s.nd, h \in 0..s.nc}
  \cup {[op |-> "gain", ch |-> h, on |-> v, exc |-> ""] : h \in 0..s.nc, v \in BOOLEAN}
Bounded(s) == TRUE
InvBad(s) ==
  (IF \E a, b \in 1..s.nd : ~Known(s, a, b) /\ Assigned(s, a, b) # -1 THEN {"link-of-unregistered"} ELSE {})
  \cup (IF \E a, b \in 1..s.nd : Serving(s, a, b) \notin Listed(s) THEN {"serving-channel-unlisted"} ELSE {})
  \cup (IF \E d \in 1..s.nd : s.reg[d] /\ OfDevice(s, d, FALSE) = {} THEN {"device-without-channel"} ELSE {})
  \cup (IF \E a, b \in Range(s.order) : Serving(s, a, b) \notin OfDevice(s, a, FALSE) \cap OfDevice(s, b, FALSE) THEN {"pair-channel-not-of-device"} ELSE {})
(* a step changes the assignment of at most one pair and never unassigns *)
StepBad(s, t) ==
  (IF \E a, b \in 1..s.nd : s.link[a][b] # -1 /\ t.link[a][b] = -1 THEN {"assignment-lost"} ELSE {})
  \cup (IF Cardinality({p \in (1..s.nd) \X (1..s.nd) : s.link[p[1]][p[2]] # t.link[p[1]][p[2]]}) > 1 THEN {"several-pairs-changed"} ELSE {})
====
