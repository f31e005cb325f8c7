---- MODULE Channels ----
(* C18: realizations of a channel between devices 1..c.nd, placed at one of several poses.
   A sample's response is known by its fingerprint fp (equal numbers: equal responses), lst: listeners [tx, rx] (0: any device).
   State: n realizations, last: the cached one, known: [k, fp] what was observed for the link k of a realization. *)
EXTENDS Naturals, Integers, Sequences, FiniteSets, TLC
CONSTANTS MaxReal, MaxSamples, MaxEdits
Init0(c) == [c |-> c, n |-> 0, last |-> 0, known |-> {}, lst |-> <<>>, pos |-> [d \in 1..c.nd |-> 0], samples |-> 0, edits |-> 0]
(* the same link of the same realization; reciprocal samples are the reverse of the sample of the reverse link *)
Key(s, e, r) == [r |-> r, a |-> e.a, b |-> e.b, p |-> s.pos[e.a], q |-> s.pos[e.b], t |-> e.t, f |-> e.f, w |-> e.w, rec |-> e.rec]
Same(s, k) == {x.fp : x \in {y \in s.known : y.k = k}}
Heard(s, a, b) == {l \in 1..Len(s.lst) : s.lst[l].on /\ (s.lst[l].tx = 0 \/ s.lst[l].tx = a) /\ (s.lst[l].rx = 0 \/ s.lst[l].rx = b)}
Count(q, l) == Cardinality({i \in 1..Len(q) : q[i] = l})
(* pairs: the links sampled *)
BadCalls(s, calls, pairs) ==
  IF \E l \in 1..Len(s.lst) : Count(calls, l) # Cardinality({i \in 1..Len(pairs) : l \in Heard(s, pairs[i][1], pairs[i][2])}) THEN {"listeners"} ELSE {}
Sampling(e) == e.op \in {"sample", "propagate"}
Post(s, e) ==
  IF e.exc # "" THEN s ELSE
  CASE e.op = "realize" -> [s EXCEPT !.n = @ + 1, !.last = IF e.cache THEN s.n + 1 ELSE @]
    [] e.op = "sample" -> [s EXCEPT !.known = @ \cup {[k |-> Key(s, e, e.r), fp |-> e.fp]}, !.samples = @ + 1]
    [] e.op = "propagate" -> [s EXCEPT !.n = @ + 1, !.last = s.n + 1, !.samples = @ + 1]
    [] e.op = "drop" -> [s EXCEPT !.n = @ + 1, !.last = s.n + 1, !.samples = @ + 1]
    [] e.op = "listen" -> [s EXCEPT !.lst = Append(@, [tx |-> e.tx, rx |-> e.rx, on |-> TRUE]), !.edits = @ + 1]
    [] e.op = "forget" -> [s EXCEPT !.lst[e.l].on = FALSE, !.edits = @ + 1]
    [] e.op = "move" -> [s EXCEPT !.pos[e.d] = e.p, !.edits = @ + 1]
    [] e.op = "configure" -> [s EXCEPT !.edits = @ + 1]
    [] OTHER -> s
Bad(s, e) ==
  IF e.exc # "" THEN {"unexpected-exception"} ELSE
  CASE e.op = "realize" -> (IF e.last # (IF e.cache THEN s.n + 1 ELSE s.last) THEN {"last-realization"} ELSE {})
    [] e.op = "sample" ->
         LET k == Key(s, e, e.r) IN
         (IF Same(s, k) \subseteq {e.fp} THEN {} ELSE {"not-frozen"})
         \cup (IF s.c.rnd /\ \E x \in s.known : x.k # k /\ [x.k EXCEPT !.r = e.r] = k /\ x.k.r # e.r /\ x.fp = e.fp THEN {"realizations-equal"} ELSE {})
         \cup (IF e.gain # 128 THEN {"gain"} ELSE {}) \cup (IF ~e.own THEN {"foreign-sample"} ELSE {})
         \cup (IF e.copy THEN {} ELSE BadCalls(s, e.calls, <<<<e.a, e.b>>>>))   \* stored copies have no listeners
    [] e.op = "propagate" -> BadCalls(s, e.calls, <<<<e.a, e.b>>>>) \cup (IF e.last # s.n + 1 THEN {"last-realization"} ELSE {})
    [] e.op = "drop" -> BadCalls(s, e.calls, e.links) \cup (IF e.last # s.n + 1 THEN {"last-realization"} ELSE {})
    [] OTHER -> {}
InvBad(s) ==
  (IF \E x, y \in s.known : x.k = y.k /\ x.fp # y.fp THEN {"two-responses"} ELSE {})
  \cup (IF \E x \in s.known : x.k.r \notin 1..s.n THEN {"unknown-realization"} ELSE {}) \cup (IF s.last > s.n THEN {"last-unknown"} ELSE {})
StepBad(s, t) == IF ~(s.known \subseteq t.known) \/ t.n < s.n THEN {"forgotten"} ELSE {}
InitStates == {Init0([nd |-> 2, rnd |-> TRUE])}
Bounded(s) == s.n <= MaxReal /\ s.samples <= MaxSamples /\ s.edits <= MaxEdits
Hear(s, pairs) == LET H(p) == Heard(s, p[1], p[2]) IN
  IF pairs = <<>> THEN <<>> ELSE LET S == H(pairs[1]) IN [i \in 1..Cardinality(S) |-> CHOOSE l \in S : Cardinality({m \in S : m <= l}) = i]
New(s) == Cardinality({x.fp : x \in s.known}) + 1
WithFp(s, e) == e @@ [fp |-> LET S == Same(s, Key(s, e, e.r)) IN IF S = {} THEN New(s) ELSE CHOOSE x \in S : TRUE]
Ops(s) ==
  (IF s.n < MaxReal THEN {[op |-> "realize", cache |-> b, last |-> IF b THEN s.n + 1 ELSE s.last, exc |-> ""] : b \in BOOLEAN} ELSE {})
  \cup (IF s.samples < MaxSamples THEN {WithFp(s, [op |-> "sample", r |-> r, a |-> x[1], b |-> x[2], t |-> t, f |-> 0, w |-> 0, rec |-> x[3], gain |-> 128, own |-> TRUE, copy |-> FALSE, calls |-> Hear(s, <<<<x[1], x[2]>>>>), exc |-> ""])
         : r \in 1..s.n, t \in {0, 1}, x \in {<<1, 2, FALSE>>, <<2, 1, TRUE>>}} ELSE {})
  \cup (IF s.edits < MaxEdits THEN
        {[op |-> "listen", tx |-> x[1], rx |-> x[2], exc |-> ""] : x \in {<<0, 0>>, <<1, 0>>, <<0, 1>>}}
        \cup {[op |-> "forget", l |-> l, exc |-> ""] : l \in {m \in 1..Len(s.lst) : s.lst[m].on}}
        \cup {[op |-> "move", d |-> 1, p |-> p, exc |-> ""] : p \in {0, 1} \ {s.pos[1]}}
        \cup {[op |-> "configure", exc |-> ""]} ELSE {})
====
