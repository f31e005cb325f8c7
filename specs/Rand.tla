---- MODULE Rand ----
(* C19: seeded random trees. Nodes own a generator or draw from their closest ancestor's. A generator is identified by its
   creation; its state is its seed (-1: unseeded) and the history of kinds drawn from it so far, so two generators with equal
   seed and history must produce the same next draw: s.seen remembers every draw ever made. *)
EXTENDS Naturals, Integers, Sequences, FiniteSets, TLC
CONSTANTS MaxGens, MaxDraws
Node(s, m) == [seed |-> s, mother |-> m]
RECURSIVE Owner(_, _)
Owner(N, n) == IF n = 0 THEN 0 ELSE IF N[n].gen # 0 THEN N[n].gen ELSE Owner(N, N[n].mother)
RECURSIVE Build(_, _, _, _)
Build(c, i, N, G) == IF i > Len(c.nodes) THEN [nodes |-> N, gens |-> G, seen |-> {}]
  ELSE LET x == c.nodes[i] own == x.mother = 0 \/ x.seed >= 0 IN
       Build(c, i + 1, Append(N, [seed |-> x.seed, mother |-> x.mother, gen |-> IF own THEN Len(G) + 1 ELSE 0]), IF own THEN Append(G, [seed |-> x.seed, h |-> <<>>]) ELSE G)
Init0(c) == Build(c, 1, <<>>, <<>>)
InitStates == {Init0([nodes |-> q]) : q \in {<<Node(1, 0), Node(-1, 1), Node(2, 1)>>, <<Node(-1, 0), Node(1, 0), Node(-1, 2)>>}}
Fresh(s, n, m) == [s EXCEPT !.nodes[n].mother = m, !.nodes[n].gen = Len(s.gens) + 1, !.gens = Append(@, [seed |-> s.nodes[n].seed, h |-> <<>>])]
RECURSIVE Above(_, _)
Above(s, n) == IF n = 0 THEN {} ELSE {n} \cup Above(s, s.nodes[n].mother)
Key(s, n, k) == LET g == s.gens[Owner(s.nodes, n)] IN [seed |-> g.seed, g |-> IF g.seed < 0 THEN Owner(s.nodes, n) ELSE 0, h |-> Append(g.h, k)]
Post(s, e) ==
  CASE e.op = "seed" -> Fresh([s EXCEPT !.nodes[e.n].seed = e.v], e.n, s.nodes[e.n].mother)
    [] e.op = "attach" -> IF e.m = 0 THEN Fresh(s, e.n, 0) ELSE [s EXCEPT !.nodes[e.n].mother = e.m, !.nodes[e.n].gen = 0]
    [] e.op = "give" -> [s EXCEPT !.nodes[e.n].gen = Owner(s.nodes, e.m)]
    [] e.op = "draw" -> [s EXCEPT !.gens[Owner(s.nodes, e.n)].h = Append(@, e.k), !.seen = @ \cup {[key |-> Key(s, e.n, e.k), got |-> e.got]}]
    [] OTHER -> s
Peers(s, n) == {m \in 1..Len(s.nodes) : Owner(s.nodes, m) = Owner(s.nodes, n)}
Bad(s, e) ==
  IF e.exc # "" THEN {"unexpected-exception"} ELSE
  CASE e.op = "draw" -> LET k == Key(s, e.n, e.k) IN
         (IF \E x \in s.seen : x.key = k /\ x.got # e.got THEN {"draw-not-reproduced"} ELSE {})
         \cup (IF \E x \in s.seen : <<x.key.seed, x.key.g>> # <<k.seed, k.g>> /\ x.got = e.got THEN {"independent-draws-coincide"} ELSE {})
    [] e.op = "read" -> (IF e.root # (s.nodes[e.n].gen # 0) THEN {"root-differs"} ELSE {})
         \cup (IF e.mother # s.nodes[e.n].mother THEN {"mother-differs"} ELSE {})
         \cup (IF e.seed # s.nodes[e.n].seed THEN {"seed-differs"} ELSE {})
         \cup (IF {e.peers[i] : i \in 1..Len(e.peers)} # Peers(s, e.n) THEN {"generator-differs"} ELSE {})
    [] OTHER -> {}
InvBad(s) ==
  (IF \E n \in 1..Len(s.nodes) : Owner(s.nodes, n) = 0 THEN {"no-generator"} ELSE {})
  \cup (IF \E x, y \in s.seen : x.key = y.key /\ x.got # y.got THEN {"draws-ambiguous"} ELSE {})
(* a draw advances one generator only; attaching and seeding leave every existing generator as it was *)
StepBad(s, t) == (IF Cardinality({g \in 1..Len(s.gens) : s.gens[g] # t.gens[g]}) > 1 THEN {"foreign-generator-advanced"} ELSE {})
  \cup (IF s.seen # t.seen /\ s.nodes # t.nodes THEN {"draw-alters-tree"} ELSE {})
Show(k) == "s" \o ToString(k.seed) \o "g" \o ToString(k.g) \o "n" \o ToString(Len(k.h))
RECURSIVE Sum(_, _)
Sum(G, i) == IF i = 0 THEN 0 ELSE Len(G[i].h) + Sum(G, i - 1)
Bounded(s) == Len(s.gens) <= MaxGens /\ Sum(s.gens, Len(s.gens)) <= MaxDraws
Ops(s) == LET N == 1..Len(s.nodes) IN
  {[op |-> "seed", n |-> n, v |-> v, exc |-> ""] : n \in N, v \in {-1, 1, 2}}
  \cup {[op |-> "attach", n |-> x[1], m |-> x[2], exc |-> ""] : x \in {y \in N \X (N \cup {0}) : y[1] \notin Above(s, y[2])}}
  \cup {[op |-> "draw", n |-> n, k |-> "n", got |-> Show(Key(s, n, "n")), exc |-> ""] : n \in N}
====
