---- MODULE Dispatch ----
(* C01: dispatch of Monte Carlo grid sections to workers.
   s.n      requested number of samples per section
   s.count  how often each section was handed out
   s.active whether the section may still be handed out
   s.prog   the last progress reported, as a number of samples out of Len(count)*n            *)
EXTENDS Naturals, Integers, Sequences, FiniteSets, TLC

CONSTANTS MaxSections, MaxSamples   \* bounds of the exhaustive model only

Init0(c) == [n |-> c.n, count |-> [i \in 1..c.k |-> 0], active |-> [i \in 1..c.k |-> TRUE], prog |-> 0]
InitStates == {Init0([k |-> k, n |-> n]) : k \in 1..MaxSections, n \in 1..MaxSamples}

K(s) == Len(s.count)
ActiveSet(s) == {i \in 1..K(s) : s.active[i]}

(* hand out one section *)
Hand(s, i) == [s EXCEPT !.count[i] = @ + 1, !.active[i] = (s.count[i] + 1 < s.n)]
RECURSIVE HandAll(_, _)
HandAll(s, b) == IF b = <<>> THEN s ELSE HandAll(Hand(s, Head(b)), Tail(b))
(* clauses a batch violates, section by section *)
RECURSIVE BatchBad(_, _)
BatchBad(s, b) ==
  IF b = <<>> THEN {}
  ELSE LET i == Head(b) IN
       IF i \notin 1..K(s) THEN {"unknown-section"}
       ELSE IF s.count[i] >= s.n THEN {"section-handed-out-too-often"}
       ELSE IF ~s.active[i] THEN {"stopped-section-handed-out"}
       ELSE BatchBad(Hand(s, i), Tail(b))

RECURSIVE SumTo(_, _)
SumTo(f, j) == IF j = 0 THEN 0 ELSE f[j] + SumTo(f, j - 1)
Done(s) == SumTo([i \in 1..K(s) |-> IF s.active[i] THEN s.count[i] ELSE s.n], K(s))

Post(s, e) ==
  CASE e.op = "batch"    -> HandAll(s, e.ret)
    [] e.op = "disable"  -> [s EXCEPT !.active[e.sec] = FALSE]
    [] e.op = "progress" -> [s EXCEPT !.prog = Done(s)]

Bad(s, e) ==
  IF e.exc # "" THEN {"unexpected-exception"}
  ELSE CASE e.op = "batch" ->
         IF e.ret = <<>> THEN (IF ActiveSet(s) # {} THEN {"empty-batch-while-sections-remain"} ELSE {})
         ELSE IF ActiveSet(s) = {} THEN {"batch-after-the-end"} ELSE BatchBad(s, e.ret)
    [] e.op = "disable" -> {}
    [] e.op = "progress" ->
         (IF e.ret # Done(s) THEN {"wrong-progress"} ELSE {})
         \cup (IF e.flags # s.active THEN {"wrong-active-map"} ELSE {})

(* batches the model explores: every sequence the contract allows, up to one grid sweep *)
RECURSIVE Batches(_, _)
Batches(s, len) ==
  IF len = 0 \/ ActiveSet(s) = {} THEN {<<>>}
  ELSE {<<>>} \cup UNION {{<<i>> \o b : b \in Batches(Hand(s, i), len - 1)} : i \in ActiveSet(s)}
Ops(s) ==
  {[op |-> "batch", ret |-> b, exc |-> ""] : b \in {x \in Batches(s, K(s)) : x # <<>> \/ ActiveSet(s) = {}}}
  \cup {[op |-> "disable", sec |-> i, exc |-> ""] : i \in 1..K(s)}
  \cup {[op |-> "progress", exc |-> ""]}
Bounded(s) == TRUE

InvBad(s) ==
  (IF \E i \in 1..K(s) : s.count[i] > s.n THEN {"more-than-requested"} ELSE {})
  \cup (IF \E i \in 1..K(s) : s.active[i] /\ s.count[i] >= s.n THEN {"exhausted-but-active"} ELSE {})
  \cup (IF s.prog > K(s) * s.n THEN {"progress-above-one"} ELSE {})
  \cup (IF ActiveSet(s) # {} /\ Done(s) >= K(s) * s.n THEN {"progress-one-too-early"} ELSE {})
  \cup (IF ActiveSet(s) = {} /\ Done(s) # K(s) * s.n THEN {"progress-not-one-at-end"} ELSE {})
StepBad(s, t) ==
  (IF t.prog < s.prog THEN {"progress-decreased"} ELSE {})
  \cup (IF \E i \in 1..K(s) : t.active[i] /\ ~s.active[i] THEN {"section-reactivated"} ELSE {})
  \cup (IF \E i \in 1..K(s) : t.count[i] > s.count[i] /\ ~s.active[i] THEN {"stopped-section-handed-out"} ELSE {})
====
