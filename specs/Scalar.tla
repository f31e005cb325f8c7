---- MODULE Scalar ----
(* C04: means and confidence stops of scalar Monte Carlo results.
   Scalars are integers (the harness scales dyadic rationals).  s.tol is the tolerance on the same scale,
   s.zlo/s.zhi enclose 1000*z^2 where 2*(1-Phi(z)) equals the confidence level; s.never: confidence 0.   *)
EXTENDS Naturals, Integers, Sequences, FiniteSets, TLC
CONSTANTS MaxAdds

Init0(c) == [k |-> c.k, min |-> c.min, tol |-> c.tol, zlo |-> c.zlo, zhi |-> c.zhi, never |-> c.never,
             n |-> [p \in 1..c.k |-> 0], sum |-> [p \in 1..c.k |-> 0], sq |-> [p \in 1..c.k |-> 0]]
InitStates == {Init0([k |-> 2, min |-> m, tol |-> t, zlo |-> z, zhi |-> z, never |-> nv]) :
                 m \in {2, 3}, t \in {0, 1}, z \in {0, 1000, 3841}, nv \in {TRUE, FALSE}}
(* the stop condition for point p of state s: n tol^2 > z^2 var, var the unbiased sample variance *)
Lhs(s, p) == s.n[p] * s.n[p] * (s.n[p] - 1) * s.tol * s.tol * 1000
Var(s, p) == s.n[p] * s.sq[p] - s.sum[p] * s.sum[p]
Due(s, p) == s.n[p] > 0 /\ s.n[p] % s.min = 0 /\ Var(s, p) > 0
MustStop(s, p) == ~s.never /\ Due(s, p) /\ Lhs(s, p) > s.zhi * Var(s, p)
MayStop(s, p) == ~s.never /\ Due(s, p) /\ Lhs(s, p) > s.zlo * Var(s, p)

Merge(s, e) == IF e.none THEN s ELSE [s EXCEPT !.n[e.p] = @ + 1, !.sum[e.p] = @ + e.x, !.sq[e.p] = @ + e.x * e.x]
Post(s, e) == IF e.op = "add" THEN Merge(s, e) ELSE s
Bad(s, e) ==
  IF e.exc # "" THEN {"unexpected-exception"}
  ELSE CASE e.op = "add" ->
         LET t == Merge(s, e) IN
         IF ~e.req THEN (IF e.stop THEN {"stop-without-request"} ELSE {})
         ELSE IF e.none THEN (IF e.stop THEN {"stop-without-scalar"} ELSE {})
         ELSE IF e.stop /\ ~MayStop(t, e.p) THEN {"unjustified-stop"}
         ELSE IF ~e.stop /\ MustStop(t, e.p) THEN {"missing-stop"} ELSE {}
    [] e.op = "query" ->
         (* e.ret[p]: the reported mean times the number of merged scalars; e.nan[p]: not a number *)
         IF Len(e.ret) # s.k THEN {"wrong-result-shape"}
         ELSE (IF \E p \in 1..s.k : s.n[p] > 0 /\ (e.nan[p] \/ e.ret[p] # s.sum[p]) THEN {"wrong-mean"} ELSE {})
              \cup (IF \E p \in 1..s.k : s.n[p] = 0 /\ ~e.nan[p] THEN {"value-without-samples"} ELSE {})
Ops(s) ==
  {[op |-> "add", p |-> p, none |-> nn, x |-> x, req |-> rq, exc |-> "",
    stop |-> (rq /\ ~nn /\ MustStop(Merge(s, [op |-> "add", p |-> p, none |-> nn, x |-> x]), p))] :
       p \in 1..s.k, nn \in BOOLEAN, x \in {-1, 0, 2}, rq \in BOOLEAN}
Bounded(s) == s.n[1] + s.n[2] <= MaxAdds
InvBad(s) ==
  (IF \E p \in 1..s.k : Var(s, p) < 0 THEN {"negative-variance"} ELSE {})
  \cup (IF s.tol = 0 /\ \E p \in 1..s.k : MustStop(s, p) THEN {"stop-without-tolerance"} ELSE {})
  \cup (IF s.never /\ \E p \in 1..s.k : MayStop(s, p) THEN {"stop-at-zero-confidence"} ELSE {})
(* other points are untouched *)
StepBad(s, t) == IF Cardinality({p \in 1..s.k : s.n[p] # t.n[p]}) > 1 THEN {"merged-into-several-points"} ELSE {}
====
