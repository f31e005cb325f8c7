---- MODULE Hooks ----
(* C26: listeners of operators and devices.
   c.kind "devices": devices with transmitting and receiving operators; c.tx[d], c.rx[d]: numbers of operators of device d.
   Hookables are named "t<k>", "r<k>" (k-th operator over all devices), "o<d>", "s<d>" (device outputs), "i<d>", "j<d>" (device inputs).
   State: on[h] sequence of registered listeners, act: listener -> what it does when called ("plain", "self" removes itself, "kill" removes act.l, "add" registers act.l as a plain listener),
   last: index of the last announced transmission of the sensing operator, sent: number of its transmissions. *)
EXTENDS Naturals, Integers, Sequences, FiniteSets, TLC
CONSTANTS MaxAdds, MaxFires, MaxSent
Init0(c) == [c |-> c, on |-> [h \in {} |-> <<>>], act |-> <<>>, fired |-> 0, last |-> 0, sent |-> 0]
On(s, h) == IF h \in DOMAIN s.on THEN s.on[h] ELSE <<>>
Put(f, k, v) == [x \in DOMAIN f \cup {k} |-> IF x = k THEN v ELSE f[x]]
Range(f) == {f[i] : i \in DOMAIN f}
Without(q, l) == SelectSeq(q, LAMBDA x : x # l)
With(q, l) == IF l \in Range(q) THEN q ELSE Append(q, l)
(* effect of the called listeners of a hookable, one after another *)
Effect(s, h, q, l) ==
  LET a == s.act[l] IN
  CASE a.k = "self" -> Without(q, l) [] a.k = "kill" -> Without(q, a.l) [] a.k = "add" -> With(q, a.l) [] OTHER -> q
RECURSIVE Fold(_, _, _, _)
Fold(s, h, q, K) == IF K = <<>> THEN q ELSE Fold(s, h, Effect(s, h, q, Head(K)), Tail(K))
Gone(s, K) == {l \in {s.act[K[i]].l : i \in {i \in 1..Len(K) : s.act[K[i]].k = "kill"}} : TRUE}
New(s, K) == {l \in {s.act[K[i]].l : i \in {i \in 1..Len(K) : s.act[K[i]].k = "add"}} : TRUE}
Pos(q, l) == CHOOSE i \in 1..Len(q) : q[i] = l
(* listeners removed during a notification may miss it, listeners registered during it may hear of it *)
BadCalls(s, h, n, K) == (* K: calls heard during n notifications *)
  LET q == On(s, h) IN
  IF n = 0 THEN (IF K # <<>> THEN {"uncalled-for"} ELSE {}) ELSE
  (IF \E i, j \in 1..Len(K) : i < j /\ K[i] = K[j] THEN {"called-twice"} ELSE {}) \cup
  (IF \E l \in Range(K) : l \notin Range(q) /\ l \notin New(s, K) THEN {"called-unregistered"} ELSE {}) \cup
  (IF \E l \in Range(q) : l \notin Range(K) /\ l \notin Gone(s, K) THEN {"listener-missed"} ELSE {}) \cup
  (IF \E i, j \in 1..Len(K) : i < j /\ K[i] \in Range(q) /\ K[j] \in Range(q) /\ Pos(q, K[i]) > Pos(q, K[j]) THEN {"listener-order"} ELSE {})
(* hookables announcing something during an event *)
Devs(s) == 1..Len(s.c.tx)
RECURSIVE Upto(_, _)
Upto(q, d) == IF d = 0 THEN 0 ELSE q[d] + Upto(q, d - 1)
Ops1(s, f, p, d) == {<<p, k>> : k \in (Upto(f, d - 1) + 1)..Upto(f, d)}
Tx(s, d) == Ops1(s, s.c.tx, "t", d)
Rx(s, d) == Ops1(s, s.c.rx, "r", d)
Out(d) == {<<"o", d>>, <<"s", d>>}
In(d) == {<<"i", d>>, <<"j", d>>}
If(b, S) == IF b THEN S ELSE {}
Route(s, e) ==
  CASE e.k = "optx" -> If(e.notify, {<<"t", e.i>>})
    [] e.k = "oprx" -> If(e.notify, {<<"r", e.i>>})
    [] e.k = "devtx" -> If(e.notify, Tx(s, e.i)) \cup Out(e.i)
    [] e.k = "devout" -> Out(e.i)
    [] e.k = "devrx" -> In(e.i) \cup If(e.notify, Rx(s, e.i))
    [] e.k = "devin" -> In(e.i)
    [] e.k = "devops" -> If(e.notify, Rx(s, e.i))
    [] e.k = "scentx" -> UNION {If(e.notify, Tx(s, d)) \cup Out(d) : d \in Devs(s)}
    [] e.k = "drop" -> UNION {Tx(s, d) \cup Out(d) \cup In(d) \cup Rx(s, d) : d \in Devs(s)}
    [] e.k = "replay" -> UNION {Tx(s, d) \cup Rx(s, d) : d \in Devs(s)}
    [] OTHER -> {}
All(s) == UNION {Tx(s, d) \cup Out(d) \cup In(d) \cup Rx(s, d) : d \in Devs(s)}
Calls(e, h) == IF \E i \in 1..Len(e.calls) : e.calls[i].h = h THEN (e.calls[CHOOSE i \in 1..Len(e.calls) : e.calls[i].h = h]).l ELSE <<>>
(* the model calls every registered listener *)
RECURSIVE Heard(_, _, _)
Heard(s, q, K) == IF q = <<>> THEN K ELSE
  LET gone == {s.act[K[i]].l : i \in {i \in 1..Len(K) : s.act[K[i]].k = "kill"}} IN
  Heard(s, Tail(q), IF Head(q) \in gone THEN K ELSE Append(K, Head(q)))
Post(s, e) ==
  IF e.exc # "" THEN s ELSE
  CASE e.op = "add" -> [s EXCEPT !.on = Put(@, e.h, With(On(s, e.h), e.l)), !.act = IF e.act.k = "add" THEN Put(Put(@, e.l, e.act), e.act.l, [k |-> "plain", l |-> 0]) ELSE Put(@, e.l, e.act)]
    [] e.op = "again" -> [s EXCEPT !.on = Put(@, e.h, With(On(s, e.h), e.l))]
    [] e.op = "remove" -> [s EXCEPT !.on = Put(@, e.h, Without(On(s, e.h), e.l))]
    [] e.op = "fire" -> [s EXCEPT !.fired = @ + 1, !.on = [h \in DOMAIN @ |-> IF h \in Route(s, e) THEN Fold(s, h, @[h], Calls(e, h)) ELSE @[h]]]
    [] e.op = "send" -> [s EXCEPT !.sent = @ + 1, !.last = IF e.notify THEN s.sent + 1 ELSE @]
    [] OTHER -> s
Bad(s, e) ==
  CASE e.op = "sense" -> IF s.last = 0 THEN (IF e.exc = "" THEN {"accepted"} ELSE {}) ELSE IF e.exc # "" THEN {"unexpected-exception"} ELSE IF e.match # (e.i = s.last) THEN {"announced-transmission"} ELSE {}
    [] e.exc # "" -> {"unexpected-exception"}
    [] e.op = "fire" -> (UNION {BadCalls(s, h, IF h \in Route(s, e) THEN 1 ELSE 0, Calls(e, h)) : h \in All(s)})
                        \cup (IF ~e.own THEN {"foreign-data"} ELSE {})
    [] OTHER -> {}
InvBad(s) == (IF \E h \in DOMAIN s.on : Cardinality(Range(s.on[h])) # Len(s.on[h]) THEN {"registered-twice"} ELSE {}) \cup (IF s.last > s.sent THEN {"announced-unsent"} ELSE {})
StepBad(s, t) == {}
InitStates == {Init0([tx |-> <<1, 1>>, rx |-> <<1, 1>>])}
Bounded(s) == Len(s.act) <= MaxAdds /\ s.fired <= MaxFires /\ s.sent <= MaxSent
Hs == {<<"t", 1>>, <<"r", 2>>, <<"o", 1>>}
Acts(s) == {[k |-> "plain", l |-> 0], [k |-> "self", l |-> 0]} \cup {[k |-> "kill", l |-> x] : x \in 1..Len(s.act)} \cup {[k |-> "add", l |-> Len(s.act) + 2]}
Events == {[op |-> "fire", k |-> "optx", i |-> 1, notify |-> TRUE], [op |-> "fire", k |-> "optx", i |-> 1, notify |-> FALSE], [op |-> "fire", k |-> "optx", i |-> 2, notify |-> TRUE], [op |-> "fire", k |-> "devtx", i |-> 1, notify |-> TRUE],
           [op |-> "fire", k |-> "devtx", i |-> 1, notify |-> FALSE], [op |-> "fire", k |-> "devrx", i |-> 2, notify |-> TRUE], [op |-> "fire", k |-> "drop", i |-> 0, notify |-> TRUE]}
Seqn(S) == IF S = {} THEN <<>> ELSE CHOOSE q \in [1..Cardinality(S) -> S] : \A i, j \in 1..Cardinality(S) : i # j => q[i] # q[j]
Fire(s, e) == LET R == {h \in Route(s, e) : On(s, h) # <<>>} q == Seqn(R) IN [calls |-> [i \in 1..Len(q) |-> [h |-> q[i], l |-> Heard(s, On(s, q[i]), <<>>)]], own |-> TRUE, exc |-> ""] @@ e
Ops(s) ==
  (IF Len(s.act) < MaxAdds /\ s.sent = 0 THEN {[op |-> "add", h |-> h, l |-> Len(s.act) + 1, act |-> a, exc |-> ""] : h \in Hs, a \in Acts(s)} ELSE {})
  \cup {[op |-> "remove", h |-> h, l |-> l, exc |-> ""] : h \in {x \in Hs : x \in DOMAIN s.on}, l \in 1..Len(s.act)}
  \cup (IF s.fired < MaxFires THEN {Fire(s, e) : e \in Events} ELSE {})
  \cup (IF s.act = <<>> THEN {[op |-> "send", notify |-> b, exc |-> ""] : b \in BOOLEAN} \cup {[op |-> "sense", i |-> i, match |-> i = s.last, exc |-> IF s.last = 0 THEN "rejected" ELSE ""] : i \in 1..s.sent} ELSE {})
====
