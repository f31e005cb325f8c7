---- MODULE Grid ----
(* C03: samples are computed at the grid point they are filed under.
   s.dims   sequence of [f, l]: first and last stage (1-based) a dimension declares to affect
   s.ns     number of pipeline stages
   s.wk     worker |-> [last: per stage [v: parameter values at its last execution, t: time, a: arguments],
                        prev: parameter values at the last evaluation, tprev: its time, time, combos]
   s.done   id |-> parameter values (index per dimension, 0 = never set) at evaluation           *)
EXTENDS Naturals, Integers, Sequences, FiniteSets, TLC
CONSTANTS MaxTime, Stages

D(s) == 1..Len(s.dims)
Zero(c) == [i \in 1..Len(c.dims) |-> 0]
Fresh(c) == [last |-> [st \in 1..c.ns |-> [v |-> Zero(c), t |-> 0, a |-> 0]], prev |-> Zero(c), tprev |-> 0, time |-> 0, combos |-> <<>>]
Init0(c) == [dims |-> c.dims, ns |-> c.ns, wk |-> [w \in 1..c.w |-> Fresh(c)], done |-> <<>>, filed |-> {}]
Ranges == {<<f, l>> \in (1..Stages) \X (1..Stages) : f <= l}
InitStates == {Init0([dims |-> <<[f |-> r[1], l |-> r[2]], [f |-> q[1], l |-> q[2]]>>, ns |-> Stages, w |-> 1]) : r \in Ranges, q \in Ranges}

(* the parameters of a worker change only between evaluations, i.e. values are what the stage saw *)
RunStage(s, e) ==
  LET k == s.wk[e.w] IN
  [s EXCEPT !.wk[e.w] = [k EXCEPT !.time = @ + 1, !.last[e.st] = [v |-> e.vals, t |-> k.time + 1, a |-> e.arg]]]
Eval(s, e) ==
  LET k == s.wk[e.w] IN
  [s EXCEPT !.wk[e.w] = [k EXCEPT !.prev = e.vals, !.tprev = k.time, !.combos = Append(@, [st \in 1..s.ns |-> k.last[st].a])],
            !.done = (e.id :> e.vals) @@ @]
Range(s, d) == {st \in 1..s.ns : s.dims[d].f <= st /\ st <= s.dims[d].l}
EvalBad(s, e) ==
  LET k == s.wk[e.w] IN
  (IF \E d \in D(s) : e.vals[d] = 0 THEN {"parameter-not-configured"} ELSE {})
  \cup (IF \E d \in D(s) : \E st \in Range(s, d) : k.last[st].v[d] # e.vals[d] THEN {"stage-ran-with-other-value"} ELSE {})
  \cup (IF \E d \in D(s) : e.vals[d] # k.prev[d] /\ \E st \in Range(s, d) : k.last[st].t <= k.tprev THEN {"affected-stage-not-rerun"} ELSE {})
  \cup (IF \E a, b \in 1..s.ns : a < b /\ k.last[a].t > k.tprev /\ k.last[b].t > k.tprev /\ k.last[a].t > k.last[b].t THEN {"stages-out-of-order"} ELSE {})
  \cup (IF k.time = k.tprev THEN {"sample-not-recomputed"} ELSE {})

Combos(e) == [1..Len(e.nargs) -> 0..9]
Post(s, e) ==
  CASE e.op = "stage" -> RunStage(s, e)
    [] e.op = "eval"  -> Eval(s, e)
    [] e.op = "begin" -> [s EXCEPT !.wk[e.w].combos = <<>>]
    [] e.op = "end"   -> s
    [] e.op = "file"  -> [s EXCEPT !.filed = @ \cup {e.id}]
    [] e.op = "finish" -> s
Prod(q) == LET RECURSIVE F(_) F(i) == IF i = 0 THEN 1 ELSE q[i] * F(i - 1) IN F(Len(q))
Bad(s, e) ==
  CASE e.op = "stage" -> {}
    [] e.op = "eval"  -> EvalBad(s, e)
    [] e.op = "begin" -> {}
    (* a batch of one section runs every combination of stage arguments exactly once *)
    [] e.op = "end" -> LET q == s.wk[e.w].combos
                       IN IF Len(q) # Prod(e.nargs) \/ Cardinality({q[i] : i \in 1..Len(q)}) # Len(q)
                             \/ \E i \in 1..Len(q), st \in 1..s.ns : q[i][st] \notin 1..e.nargs[st]
                          THEN {"stage-argument-combinations"} ELSE {}
    [] e.op = "file"  -> (IF e.id \notin DOMAIN s.done THEN {"filed-but-never-computed"}
                          ELSE IF s.done[e.id] # e.vals THEN {"filed-under-another-grid-point"} ELSE {})
    [] e.op = "finish" -> (IF e.exc # "" THEN {"unexpected-exception"} ELSE {})
                          \cup (IF e.exc = "" /\ (DOMAIN s.done) # s.filed THEN {"computed-but-not-filed"} ELSE {})

Ops(s) ==
  LET k == s.wk[1] IN
  {[op |-> "stage", w |-> 1, st |-> st, arg |-> 1, vals |-> v] : st \in 1..s.ns, v \in [D(s) -> 1..2]}
  \cup {e \in {[op |-> "eval", w |-> 1, id |-> Cardinality(DOMAIN s.done) + 1, vals |-> v] : v \in [D(s) -> 1..2]} : EvalBad(s, e) = {}}
Bounded(s) == s.wk[1].time <= MaxTime
(* independent statement of the guarantee: the value every affected stage computed with is the filed one *)
InvBad(s) ==
  IF \E w \in 1..Len(s.wk) : s.wk[w].time = s.wk[w].tprev /\ s.wk[w].time > 0
       /\ \E d \in D(s) : \E st \in Range(s, d) : s.wk[w].last[st].v[d] # s.wk[w].prev[d]
  THEN {"sample-of-mixed-parameters"} ELSE {}
StepBad(s, t) == IF \E i \in DOMAIN s.done : t.done[i] # s.done[i] THEN {"sample-changed"} ELSE {}
====
