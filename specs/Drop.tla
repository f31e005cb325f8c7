---- MODULE Drop ----
(* C07: what a simulated drop delivers. Devices 1..nd with nt[d] transmit and nr[d] receive antennas, channels 0..nc (0: default),
   link as in Links (unordered pairs, -1: unassigned), tx[d] the stream matrix device d currently sends (rows of [re, im]),
   sel[d] the receive ports its receiver listens to (<<>> with all[d]: every port; none[d]: no receiver).
   A drop at time t realizes every listed channel h once with some amplitude g[h]; a sample of the realization at time t has the
   amplitude g[h] + t. *)
EXTENDS Naturals, Integers, Sequences, FiniteSets, TLC
CONSTANTS MaxDev, MaxCh

Z == <<0, 0>>
Max(a, b) == IF a > b THEN a ELSE b
Lo(a, b) == IF a < b THEN a ELSE b
Hi(a, b) == IF a < b THEN b ELSE a
At(m, i, j) == IF i \in 1..Len(m) /\ j \in 1..Len(m[i]) THEN m[i][j] ELSE Z
Width(m) == IF Len(m) = 0 THEN 0 ELSE Len(m[1])
Add(a, b) == <<a[1] + b[1], a[2] + b[2]>>
Scale(k, a) == <<k * a[1], k * a[2]>>
RECURSIVE ColSum(_, _, _)
ColSum(m, n, j) == IF n = 0 THEN Z ELSE Add(At(m, n, j), ColSum(m, n - 1, j))

Init0(c) == [nd |-> c.nd, nc |-> c.nc, nt |-> c.nt, nr |-> c.nr, all |-> c.all, sel |-> c.sel, tx |-> c.tx,
             link |-> [a \in 1..c.nd |-> [b \in 1..c.nd |-> -1]]]
InitStates == {Init0([nd |-> MaxDev, nc |-> MaxCh, nt |-> <<1, 2, 2>>, nr |-> <<2, 2, 1>>, all |-> <<TRUE, FALSE, TRUE>>, sel |-> <<<<>>, <<2>>, <<>>>>,
                      tx |-> <<<< <<<<1, 0>>, <<0, 2>>>> >>, << <<<<10, 0>>>>, <<<<0, 20>>>> >>, << <<<<100, 0>>, <<300, 0>>>>, <<<<0, 200>>, <<0, 0>>>> >>>>])}
Serving(s, a, b) == IF s.link[Lo(a, b)][Hi(a, b)] = -1 THEN 0 ELSE s.link[Lo(a, b)][Hi(a, b)]
Listed(s) == {0} \cup ({s.link[a][b] : a \in 1..s.nd, b \in 1..s.nd} \ {-1})
(* the ideal channel: one transmit antenna reaches every receive antenna, one receive antenna hears the sum of all transmit antennas,
   otherwise antennas of the same number are connected *)
Ideal(m, nt, nr, i, j) == IF nt = 1 THEN At(m, 1, j) ELSE IF nr = 1 THEN ColSum(m, nt, j) ELSE At(m, i, j)
Amp(s, e, rx, tx) == e.g[Serving(s, rx, tx) + 1][1] + e.t
(* sample j arriving at antenna i of rx from tx *)
Arrive(s, e, rx, tx, i, j) == Scale(Amp(s, e, rx, tx), Ideal(s.tx[tx], s.nt[tx], s.nr[rx], i, j))
RECURSIVE SumArrive(_, _, _, _, _, _)
SumArrive(s, e, rx, n, i, j) == IF n = 0 THEN Z ELSE Add(Arrive(s, e, rx, n, i, j), SumArrive(s, e, rx, n - 1, i, j))
RECURSIVE MaxW(_, _)
MaxW(s, n) == IF n = 0 THEN 0 ELSE Max(Width(s.tx[n]), MaxW(s, n - 1))
Ports(s, d) == IF s.all[d] THEN [i \in 1..s.nr[d] |-> i] ELSE s.sel[d]

RealizedOnce(s, e) == \A h \in 0..s.nc : Len(e.g[h + 1]) = (IF h \in Listed(s) THEN 1 ELSE 0)
SentBad(s, m, d) == \/ Len(m) # s.nt[d]
                    \/ \E i \in 1..s.nt[d], j \in 1..Max(Width(s.tx[d]), Width(m)) : At(m, i, j) # At(s.tx[d], i, j)
ImpBad(s, e, rx, tx) == LET m == e.imp[rx][tx] IN
  Len(m) # s.nr[rx] \/ \E i \in 1..s.nr[rx], j \in 1..Max(MaxW(s, s.nd), Width(m)) : At(m, i, j) # Arrive(s, e, rx, tx, i, j)
RecBad(s, e, rx) == LET m == e.rec[rx]  p == Ports(s, rx) IN
  Len(m) # Len(p) \/ \E i \in 1..Len(p), j \in 1..Max(MaxW(s, s.nd), Width(m)) : At(m, i, j) # SumArrive(s, e, rx, s.nd, p[i], j)

Post(s, e) ==
  CASE e.op = "set" -> [s EXCEPT !.link[Lo(e.a, e.b)][Hi(e.a, e.b)] = e.ch]
    [] e.op = "send" -> [s EXCEPT !.tx[e.a] = e.m]
    [] e.op = "sel" -> [s EXCEPT !.all[e.a] = FALSE, !.sel[e.a] = e.p]
    [] OTHER -> s
Bad(s, e) ==
  IF e.exc # "" THEN {"unexpected-exception"}
  ELSE IF e.op # "drop" THEN {}
  ELSE IF ~RealizedOnce(s, e) THEN {"channel-not-realized-once"}
  ELSE (IF e.full /\ \E d \in 1..s.nd : SentBad(s, e.tx[d], d) THEN {"reported-transmission-differs"} ELSE {})
       \cup (IF e.full /\ \E rx, tx \in 1..s.nd : ImpBad(s, e, rx, tx) THEN {"impinging-signal-differs"} ELSE {})
       \cup (IF e.full /\ \E d \in 1..s.nd : e.rep[d] # e.rec[d] THEN {"reported-reception-differs"} ELSE {})
       \cup (IF \E d \in 1..s.nd : RecBad(s, e, d) THEN {"reception-is-not-the-sum"} ELSE {})
Ops(s) ==
  {[op |-> "set", a |-> a, b |-> b, ch |-> h, exc |-> ""] : a \in 1..s.nd, b \in 1..s.nd, h \in 0..s.nc}
  \cup {[op |-> "send", a |-> s.nd, m |-> << <<<<5, 0>>>>, <<<<0, 7>>>> >>, exc |-> ""]}
Bounded(s) == TRUE
(* over amplitudes identifying the channels, reciprocity: what a hears of b is served by what b hears of a; every pair is served by a listed channel *)
InvBad(s) ==
  (IF \E a, b \in 1..s.nd : Serving(s, a, b) # Serving(s, b, a) THEN {"not-reciprocal"} ELSE {})
  \cup (IF \E a, b \in 1..s.nd : Serving(s, a, b) \notin Listed(s) THEN {"served-by-unrealized-channel"} ELSE {})
StepBad(s, t) ==
  IF s.link # t.link /\ (s.tx # t.tx \/ Cardinality({p \in (1..s.nd) \X (1..s.nd) : s.link[p[1]][p[2]] # t.link[p[1]][p[2]]}) > 1)
  THEN {"several-changes"} ELSE {}
====
