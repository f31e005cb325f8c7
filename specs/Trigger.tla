---- MODULE Trigger ----
(* C08: trigger models of simulated devices. Devices 1..nd, trigger models 1..nm; model 0 stands for a device's own initial (static) trigger.
   c.kind[m] in {"static", "off", "time", "normal", "rand"}, c.k[m]: configured offset in samples, c.fd[d]: frame length of device d in samples,
   c.tx[d]: the samples transmitted by device d in each drop. asg[d]: the model assigned last. *)
EXTENDS Naturals, Integers, Sequences, FiniteSets, TLC
CONSTANTS MaxDev

Init0(c) == [nd |-> c.nd, nm |-> Len(c.kind), kind |-> c.kind, k |-> c.k, fd |-> c.fd, tx |-> c.tx, asg |-> [d \in 1..c.nd |-> 0]]
InitStates == {Init0([nd |-> MaxDev, kind |-> <<kd, "rand">>, k |-> <<1, 0>>, fd |-> [d \in 1..MaxDev |-> d], tx |-> [d \in 1..MaxDev |-> [j \in 1..d |-> <<d * 10 + j, 0>>]]]) : kd \in {"off", "static"}}
Members(s, m) == {d \in 1..s.nd : s.asg[d] = m}
Max(S) == CHOOSE x \in S : \A y \in S : y <= x
Span(s, m) == Max({s.fd[d] : d \in Members(s, m)} \cup {1})
(* the delays model m may realize *)
Delays(s, m) ==
  IF m = 0 \/ s.kind[m] = "static" THEN {0}
  ELSE IF s.kind[m] \in {"off", "time", "normal"} THEN {s.k[m]}
  ELSE 0..(Span(s, m) - 1)
Realizable(s, q, ds) == /\ Len(q) = Len(ds)
                        /\ \A i \in 1..Len(ds) : q[i] \in Delays(s, s.asg[ds[i]])
Synchronous(s, q, ds) == \A i, j \in 1..Len(ds) : s.asg[ds[i]] # 0 /\ s.asg[ds[i]] = s.asg[ds[j]] => q[i] = q[j]
All(s) == [d \in 1..s.nd |-> d]
At(q, j) == IF j \in 1..Len(q) THEN q[j] ELSE <<0, 0>>
RECURSIVE Arrive(_, _, _, _, _)
(* sample j of the window of device d: every transmission, each shifted by its own trigger relative to d's *)
Arrive(s, t, d, src, j) == IF src = 0 THEN <<0, 0>>
   ELSE LET a == At(s.tx[src], j + t[d] - t[src]) b == Arrive(s, t, d, src - 1, j) IN <<a[1] + b[1], a[2] + b[2]>>
Horizon(s, t) == Max({Len(s.tx[d]) + t[d] : d \in 1..s.nd} \cup {0})
Window(s, t, d) == [j \in 1..Horizon(s, t) |-> Arrive(s, t, d, s.nd, j)]
Same(a, b) == \A j \in 1..Max({Len(a), Len(b)}) : At(a, j) = At(b, j)

Post(s, e) ==
  CASE e.op = "assign" -> [s EXCEPT !.asg[e.d] = e.m]
    [] e.op = "setk" -> [s EXCEPT !.k[e.m] = e.v]
    [] OTHER -> s
Bad(s, e) ==
  IF e.exc # "" THEN {"unexpected-exception"}
  ELSE CASE e.op = "members" ->
              (IF \E m \in 1..s.nm : {e.mem[m][i] : i \in 1..Len(e.mem[m])} # Members(s, m) THEN {"model-serves-wrong-devices"} ELSE {})
              \cup (IF \E m \in 1..s.nm : e.num[m] # Cardinality(Members(s, m)) THEN {"wrong-device-count"} ELSE {})
              \cup (IF e.asg # s.asg THEN {"wrong-trigger-model"} ELSE {})
         [] e.op = "realize" ->
              (IF ~Realizable(s, e.t, e.ds) THEN {"delay-not-allowed"} ELSE {})
              \cup (IF Realizable(s, e.t, e.ds) /\ ~Synchronous(s, e.t, e.ds) THEN {"shared-trigger-not-synchronous"} ELSE {})
         [] e.op = "many" ->
              (IF \E i \in 1..Len(e.ts) : ~Realizable(s, e.ts[i], All(s)) THEN {"delay-not-allowed"} ELSE {})
              \cup (IF \E i \in 1..Len(e.ts) : ~Synchronous(s, e.ts[i], All(s)) THEN {"shared-trigger-not-synchronous"} ELSE {})
              (* two models drawing from at least four delays each never agree, nor repeat themselves, sixty times in a row by chance *)
              \cup (IF Len(e.ts) >= 60 /\ \E a, b \in 1..s.nd : s.asg[a] # s.asg[b] /\ Cardinality(Delays(s, s.asg[a])) >= 4 /\ Cardinality(Delays(s, s.asg[b])) >= 4
                        /\ \A i \in 1..Len(e.ts) : e.ts[i][a] = e.ts[i][b] THEN {"different-triggers-not-independent"} ELSE {})
              \cup (IF Len(e.ts) >= 60 /\ \E a \in 1..s.nd : Cardinality(Delays(s, s.asg[a])) >= 4 /\ \A i \in 1..Len(e.ts) : e.ts[i][a] = e.ts[1][a] THEN {"random-trigger-constant"} ELSE {})
         [] e.op = "drop" ->
              (IF ~Realizable(s, e.t, All(s)) THEN {"delay-not-allowed"}
               ELSE (IF ~Synchronous(s, e.t, All(s)) THEN {"shared-trigger-not-synchronous"} ELSE {})
                 \cup (IF e.t2 # e.t THEN {"reception-under-another-trigger"} ELSE {})
                 \cup (IF \E d \in 1..s.nd : ~Same(e.rec[d], Window(s, e.t, d)) THEN {"samples-not-shifted-by-the-trigger-delay"} ELSE {})
                 \cup (IF \E d \in 1..s.nd : e.dl[d] # e.t[d] THEN {"output-delay-is-not-the-trigger-delay"} ELSE {}))
         [] e.op = "input" ->
              (* one device, signal q delayed by e.v samples, window opened by trigger delay e.t *)
              IF \E j \in 1..(Len(e.q) + e.v + Len(e.rec)) : At(e.rec, j) # At(e.q, j + e.t - e.v) THEN {"samples-not-shifted-by-the-trigger-delay"} ELSE {}
         [] OTHER -> {}
Ops(s) ==
  {[op |-> "assign", d |-> d, m |-> m, exc |-> ""] : d \in 1..s.nd, m \in 1..s.nm}
  \cup {[op |-> "setk", m |-> 1, v |-> v, exc |-> ""] : v \in {x \in 1..2 : s.kind[1] = "off"}}
  \cup {[op |-> "drop", exc |-> "", t |-> t, t2 |-> t, dl |-> t, rec |-> [d \in 1..s.nd |-> Window(s, t, d)]] :
         t \in {q \in [1..s.nd -> 0..MaxDev] : Realizable(s, q, All(s)) /\ Synchronous(s, q, All(s))}}
Bounded(s) == TRUE
InvBad(s) ==
  (* sharing one static or offset trigger is as good as no trigger: everybody sees the plain sum *)
  (IF \E m \in 1..s.nm : Members(s, m) = 1..s.nd /\ \E t \in Delays(s, m) : \E d \in 1..s.nd :
        ~Same(Window(s, [x \in 1..s.nd |-> t], d), Window(s, [x \in 1..s.nd |-> 0], 1)) THEN {"synchronous-devices-see-different-windows"} ELSE {})
  \cup (IF \E m \in 1..s.nm : Delays(s, m) = {} THEN {"no-delay-possible"} ELSE {})
StepBad(s, t) == IF Cardinality({d \in 1..s.nd : s.asg[d] # t.asg[d]}) > 1 THEN {"several-devices-reassigned"} ELSE {}
====
