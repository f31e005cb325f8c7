---- MODULE Radar ----
(* C23: radar detection and radar evaluations over integer cubes.
   A cube is [data, ang, dop, rng]: data[a][d][r] powers, ang[a] = <<azimuth, zenith>> in quarter turns, dop[d] velocity and rng[r] range of the bins.
   State: roc: the artifacts <<h0, h1>> added per grid point, rms: cumulated square error and number of errors, cloud: points of the last reception. *)
EXTENDS Naturals, Integers, Sequences, FiniteSets, TLC
CONSTANTS MaxRoc
Init0(c) == [c |-> c, roc |-> <<<<>>, <<>>>>, rms |-> <<0, 0>>, cloud |-> -1]
Cos(q) == CASE q % 4 = 0 -> 1 [] q % 4 = 2 -> -1 [] OTHER -> 0
Sin(q) == Cos(q + 3)
Normal(a) == <<Cos(a[1]) * Sin(a[2]), Sin(a[1]) * Sin(a[2]), Cos(a[2])>>
Scale(k, v) == <<k * v[1], k * v[2], k * v[3]>>
Cells(q) == (1..Len(q.data)) \X (1..Len(q.dop)) \X (1..Len(q.rng))
Val(q, i) == q.data[i[1]][i[2]][i[3]]
Point(q, i) == [p |-> Scale(q.rng[i[3]], Normal(q.ang[i[1]])), v |-> Scale(q.dop[i[2]], Normal(q.ang[i[1]])), w |-> Val(q, i)]
SetMax(S) == CHOOSE x \in S : \A y \in S : y <= x
SetMin(S) == CHOOSE x \in S : \A y \in S : x <= y
Vals(q) == {Val(q, i) : i \in Cells(q)}
Peak(q) == SetMax(Vals(q))
Floor(q) == SetMin(Vals(q))
Near(q, i) == {j \in Cells(q) : (j[1] - i[1]) * (j[1] - i[1]) + (j[2] - i[2]) * (j[2] - i[2]) + (j[3] - i[3]) * (j[3] - i[3]) = 1}
Above(q, e, i) == IF e.norm /\ Peak(q) > 0 THEN (Val(q, i) - Floor(q)) * e.den >= e.num * Peak(q) ELSE Val(q, i) * e.den >= e.num
Triggered(q, e) == {i \in Cells(q) : Above(q, e, i) /\ (~e.peak \/ \A j \in Near(q, i) : Val(q, j) <= Val(q, i))}
(* constant false alarm rate: sum and number of training cells around a cell; the false alarm probability is 2^-k *)
RECURSIVE Pow(_, _)
Pow(b, n) == IF n = 0 THEN 1 ELSE b * Pow(b, n - 1)
Abs(x) == IF x < 0 THEN -x ELSE x
Train(q, e, i) == {j \in Cells(q) : j[1] = i[1] /\ Abs(j[2] - i[2]) <= e.t[1] + e.g[1] /\ Abs(j[3] - i[3]) <= e.t[2] + e.g[2]
                     /\ ~(Abs(j[2] - i[2]) <= e.g[1] /\ Abs(j[3] - i[3]) <= e.g[2])}
RECURSIVE SumV(_, _)
SumV(q, S) == IF S = {} THEN 0 ELSE LET j == CHOOSE x \in S : TRUE IN Val(q, j) + SumV(q, S \ {j})
(* x > s * (2^(k/n) - 1)  <=>  (x + s)^n > s^n * 2^k *)
Cfar(q, e, i) == LET T == Train(q, e, i) s == SumV(q, T) n == Cardinality(T) IN
  IF n = 0 THEN "free" ELSE LET l == Pow(Val(q, i) + s, n) r == Pow(s, n) * Pow(2, e.k) IN IF l > r THEN "hit" ELSE IF l = r /\ s > 0 /\ e.k > 0 THEN "free" ELSE "miss"
Windowed(q, e) == Len(q.dop) >= 2 * e.t[1] + 2 * e.g[1] + 1 /\ Len(q.rng) >= 2 * e.t[2] + 2 * e.g[2] + 1
Points(q, S) == {Point(q, i) : i \in S}
Range(f) == {f[i] : i \in 1..Len(f)}
BadDetect(e) == LET q == e.q IN
  (IF e.same THEN {} ELSE {"cube-altered"}) \cup (IF e.mr # SetMax(Range(q.rng)) THEN {"maximum-range"} ELSE {}) \cup
  (CASE e.k = "threshold" -> LET S == Triggered(q, e) IN (IF Range(e.det) # Points(q, S) \/ Len(e.det) # Cardinality(S) THEN {"threshold-detections"} ELSE {})
     [] e.k = "max" -> IF Peak(q) <= 0 THEN (IF e.det # <<>> THEN {"detection-in-empty-cube"} ELSE {})
                       ELSE IF Len(e.det) # 1 \/ ~(\E i \in Cells(q) : Val(q, i) = Peak(q) /\ e.det[1] = Point(q, i)) THEN {"maximum-detection"} ELSE {}
     [] OTHER -> LET f == [k |-> e.pfa, t |-> e.t, g |-> e.g]
                     H == {i \in Cells(q) : Cfar(q, f, i) = "hit"} F == {i \in Cells(q) : Cfar(q, f, i) = "free"} IN
                 IF ~(Points(q, H) \subseteq Range(e.det) /\ Range(e.det) \subseteq Points(q, H \cup F) /\ Len(e.det) >= Cardinality(H) /\ Len(e.det) <= Cardinality(H \cup F)) THEN {"false-alarm-rate-detections"} ELSE {})
(* operating characteristic over n thresholds evenly spaced between the extreme values: numbers of exceedances, scaled by n - 1 to stay integral *)
All(r) == {r[i][1] : i \in 1..Len(r)} \cup {r[i][2] : i \in 1..Len(r)}
Count(r, x, t, n) == Cardinality({i \in 1..Len(r) : r[i][x] * (n - 1) >= SetMin(All(r)) * (n - 1) + t * (SetMax(All(r)) - SetMin(All(r)))})
Curve(r, n) == [t \in 1..n |-> <<Count(r, 2, t - 1, n), Count(r, 1, t - 1, n)>>]
Dist(a, b) == (a[1] - b[1]) * (a[1] - b[1]) + (a[2] - b[2]) * (a[2] - b[2]) + (a[3] - b[3]) * (a[3] - b[3])
SqErr(e) == LET S[i \in 0..(Len(e.p) * Len(e.t))] == IF i = 0 THEN 0 ELSE S[i - 1] + Dist(e.p[((i - 1) \div Len(e.t)) + 1], e.t[((i - 1) % Len(e.t)) + 1]) IN S[Len(e.p) * Len(e.t)]
Post(s, e) ==
  IF e.exc # "" THEN s ELSE
  CASE e.op = "sample" -> [s EXCEPT !.roc[e.i] = Append(@, <<e.h0, e.h1>>)]
    [] e.op = "error" -> [s EXCEPT !.rms = <<@[1] + SqErr(e), @[2] + Len(e.p) * Len(e.t)>>]
    [] e.op = "receive" -> [s EXCEPT !.cloud = e.n]
    [] OTHER -> s
Refusing(s, e) ==
  CASE e.op = "detect" -> e.k = "cfar" /\ ~Windowed(e.q, e)
    [] e.op = "probability" -> s.cloud < 0
    [] OTHER -> FALSE
Bad(s, e) ==
  IF Refusing(s, e) THEN (IF e.exc = "" THEN {"accepted"} ELSE {}) ELSE
  IF e.exc # "" THEN {"unexpected-exception"} ELSE
  CASE e.op = "detect" -> BadDetect(e)
    [] e.op = "sample" -> (IF e.a0 # e.h0 \/ e.a1 # e.h1 THEN {"hypothesis-powers"} ELSE {})
    [] e.op = "roc" -> (IF \E i \in 1..2 : s.roc[i] # <<>> /\ e.v[i] # Curve(s.roc[i], e.n) THEN {"operating-characteristic"} ELSE {})
                       \cup (IF \E i \in 1..2 : s.roc[i] = <<>> /\ ~e.nan[i] THEN {"characteristic-without-samples"} ELSE {})
                       \cup (IF e.shown /\ \E i \in 1..2 : s.roc[i] # <<>> /\ e.plot[i] # Curve(s.roc[i], e.n) THEN {"shown-characteristic"} ELSE {})
    [] e.op = "error" -> (IF e.a # <<SqErr(e), Len(e.p) * Len(e.t)>> THEN {"square-error"} ELSE {})
    [] e.op = "rms" -> IF s.rms[2] > 0 /\ e.v # s.rms[1] THEN {"root-mean-square"} ELSE {}
    [] e.op = "probability" -> IF e.v # (s.cloud > 0) THEN {"detection-probability"} ELSE {}
    [] e.op = "target" -> (* a target at range bin b, seen by a radar ignoring bins below m out of n *)
         (IF e.first # e.m THEN {"minimum-range"} ELSE {}) \cup (IF e.len # e.n - e.m THEN {"number-of-range-bins"} ELSE {})
         \cup (IF e.b >= e.m /\ (e.at # e.b \/ e.vel # 0 \/ e.z # e.b) THEN {"target-position"} ELSE {})
    [] e.op = "link" -> (* drops over a channel with a single target: without the target nothing is received, with it the strongest cell is the target's *)
         (IF \E i \in 1..Len(e.drops) : ~e.drops[i].null \/ ~e.drops[i].hit THEN {"hypotheses"} ELSE {})
         \cup (IF \E i \in 1..Len(e.drops) : e.drops[i].err # 0 \/ e.drops[i].num # 1 THEN {"detection-error"} ELSE {})
         \cup (IF \E i \in 1..Len(e.drops) : ~e.drops[i].pd THEN {"undetected-target"} ELSE {})
    [] OTHER -> {}
(* sanity of the specification on a fixed family of cubes is checked by the model's invariant: a maximal positive cell is always triggered without normalization below it *)
Cubes == {[data |-> <<<<d>>>>, ang |-> <<<<0, 1>>>>, dop |-> <<2>>, rng |-> <<0, 1, 3>>] : d \in [1..3 -> 0..2]}
InvBad(s) ==
  (IF \E i \in 1..2 : s.roc[i] # <<>> /\ LET k == Curve(s.roc[i], 5) IN k[1] # <<Len(s.roc[i]), Len(s.roc[i])>> \/ \E t \in 1..4 : k[t + 1][1] > k[t][1] \/ k[t + 1][2] > k[t][2] THEN {"characteristic-not-monotone"} ELSE {})
StepBad(s, t) == IF \E i \in 1..2 : Len(t.roc[i]) < Len(s.roc[i]) THEN {"samples-lost"} ELSE {}
InitStates == {Init0([x |-> 0])}
Bounded(s) == Len(s.roc[1]) + Len(s.roc[2]) <= MaxRoc /\ s.rms[2] <= 2 /\ s.rms[1] <= 20
Det(q, e) == IF e.k = "max" THEN {} ELSE Triggered(q, e)
Ops(s) ==
  {[op |-> "detect", k |-> "threshold", q |-> q, num |-> n, den |-> 2, norm |-> b, peak |-> p, exc |-> ""] : q \in (IF s.roc = <<<<>>, <<>>>> /\ s.cloud = -1 /\ s.rms = <<0, 0>> THEN Cubes ELSE {}), n \in {1, 2}, b \in BOOLEAN, p \in BOOLEAN}
  \cup {[op |-> "detect", k |-> "max", q |-> q, exc |-> ""] : q \in (IF s.roc = <<<<>>, <<>>>> /\ s.cloud = -1 /\ s.rms = <<0, 0>> THEN Cubes ELSE {})}
  \cup (IF Len(s.roc[1]) + Len(s.roc[2]) < MaxRoc THEN {[op |-> "sample", i |-> i, h0 |-> a, h1 |-> b, exc |-> ""] : i \in 1..2, a \in 0..2, b \in {0, 1, 4}} ELSE {})
  \cup {[op |-> "receive", n |-> n, exc |-> ""] : n \in {-1, 0, 2}}
  \cup (IF s.rms[2] < 1 THEN {[op |-> "error", p |-> p, t |-> <<<<1, 0, 0>>>>, exc |-> ""] : p \in {<<>>, <<<<1, 2, 0>>>>}} ELSE {})
  \cup {[op |-> "roc", n |-> 5, exc |-> ""], [op |-> "rms", exc |-> ""], [op |-> "probability", exc |-> IF s.cloud < 0 THEN "rejected" ELSE ""]}
====
