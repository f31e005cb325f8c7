---- MODULE Signals ----
(* C10: the algebra of multi-stream signal models.
   A signal is a zero-padded matrix of Gaussian integers (k streams, n samples) on an absolute time axis: its first
   sample lies at d sampling periods.  kind "d" is a dense, "s" a sparse model of the same thing.  Slots 1..K hold signals;
   every operation combines slots a and b into slot t, every observation reports all slots. own: not sharing memory. *)
EXTENDS Naturals, Integers, Sequences, FiniteSets, TLC
CONSTANTS MaxLen

Z == <<0, 0>>
NONE == 99999
CAdd(x, y) == <<x[1] + y[1], x[2] + y[2]>>
CMul(x, y) == <<x[1] * y[1] - x[2] * y[2], x[1] * y[2] + x[2] * y[1]>>
Mx(x, y) == IF x > y THEN x ELSE y
Mk(k, n, d, nz, F(_, _)) == [k |-> k, n |-> n, d |-> d, nz |-> nz, m |-> [i \in 1..k |-> [j \in 1..n |-> F(i, j)]]]
Nil == [k |-> 0, n |-> 0, d |-> 0, nz |-> 0, m |-> <<>>, kind |-> "d", own |-> FALSE]
Cell(g, i, j) == IF i >= 1 /\ i <= g.k /\ j >= 1 /\ j <= g.n THEN g.m[i][j] ELSE Z
RECURSIVE CSum(_, _)
CSum(S, F) == IF S = {} THEN Z ELSE LET x == CHOOSE x \in S : TRUE IN CAdd(F[x], CSum(S \ {x}, F))
RECURSIVE ISum(_, _)
ISum(n, F) == IF n = 0 THEN 0 ELSE F[n] + ISum(n - 1, F)
SetMax(S, d) == IF S = {} THEN d ELSE CHOOSE x \in S : \A y \in S : y <= x

Init0(c) == [slot |-> [i \in 1..c.K |-> Nil], len |-> 0]
InitStates == {Init0([K |-> 2])}

(* superposition: b enters a's window at its own delay; its part before the window is cut *)
Empty(a) == a.kind = "d" /\ (a.k = 0 \/ a.n = 0)
Targets(a, b, e) == IF e.none THEN [p \in 1..(IF b.k = 1 THEN Mx(a.k, 1) ELSE b.k) |-> p] ELSE e.idx
Source(b, T, p) == IF b.k = Len(T) THEN p ELSE IF b.k = 1 THEN 1 ELSE T[p]
SupOk(a, b, e) ==
  LET T == Targets(a, b, e) IN
  \A p \in 1..Len(T) : /\ T[p] >= 1 /\ Source(b, T, p) <= b.k
                       /\ ((~e.none \/ a.kind = "s") => T[p] <= a.k)
Sup(a, b, e) ==
  LET T == Targets(a, b, e)
      d0 == IF Empty(a) THEN b.d ELSE a.d
      nz == IF Empty(a) THEN b.nz ELSE a.nz
      sh == b.d - d0
      used == Len(T) > 0 /\ b.n > 0
      a0 == IF Empty(a) THEN [a EXCEPT !.n = 0, !.m = [i \in 1..a.k |-> <<>>]] ELSE a
      k == Mx(a.k, SetMax({T[p] : p \in 1..Len(T)}, 0))
      n == IF used THEN Mx(a0.n, b.n + sh) ELSE a0.n
  IN Mk(k, n, d0, nz, LAMBDA i, j : CAdd(Cell(a0, i, j),
        CSum({p \in 1..Len(T) : T[p] = i}, [p \in 1..Len(T) |-> Cell(b, Source(b, T, p), j - sh)])))
(* python slices *)
Norm(v, n) == IF v < 0 THEN Mx(v + n, 0) ELSE IF v > n THEN n ELSE v
SlStart(q, n) == IF q[1] = NONE THEN 0 ELSE Norm(q[1], n)
SlStop(q, n) == IF q[2] = NONE THEN n ELSE Norm(q[2], n)
SlStep(q) == IF q[3] = NONE THEN 1 ELSE q[3]
SlLen(q, n) == IF SlStart(q, n) < SlStop(q, n) THEN ((SlStop(q, n) - SlStart(q, n) - 1) \div SlStep(q)) + 1 ELSE 0
Pick(q, n) == [p \in 1..SlLen(q, n) |-> SlStart(q, n) + (p - 1) * SlStep(q) + 1]
RowsOf(a, e) == IF e.rsl THEN Pick(e.rows, a.k) ELSE e.rows
Slice(a, e) == LET R == RowsOf(a, e) C == Pick(e.cols, a.n)
               IN Mk(Len(R), Len(C), a.d, a.nz, LAMBDA i, j : Cell(a, R[i], C[j]))

A(s, e) == s.slot[e.a]
B(s, e) == s.slot[e.b]
Ok(s, e) ==
  CASE e.op = "sup" -> SupOk(A(s, e), B(s, e), e)
    [] e.op = "apps" -> A(s, e).k = B(s, e).k
    [] e.op = "appst" -> B(s, e).n <= A(s, e).n
    [] OTHER -> TRUE
Expect(s, e) ==
  CASE e.op = "new" -> Mk(e.k, e.n, e.d + e.off, e.nz, LAMBDA i, j : e.m[i][j])
    [] e.op = "sup" -> Sup(A(s, e), B(s, e), e)
    [] e.op = "apps" -> LET a == A(s, e) b == B(s, e)
                        IN Mk(a.k, a.n + b.n, a.d, a.nz, LAMBDA i, j : IF j <= a.n THEN Cell(a, i, j) ELSE Cell(b, i, j - a.n))
    [] e.op = "appst" -> LET a == A(s, e) b == B(s, e)
                         IN Mk(a.k + b.k, Mx(a.n, b.n), a.d, a.nz, LAMBDA i, j : IF i <= a.k THEN Cell(a, i, j) ELSE Cell(b, i - a.k, j))
    [] e.op = "slice" -> Slice(A(s, e), e)
    [] e.op = "mul" -> LET a == A(s, e) IN Mk(a.k, a.n, a.d, a.nz, LAMBDA i, j : CMul(Cell(a, i, j), e.z))
    [] e.op = "poke" -> LET a == s.slot[e.t] IN Mk(a.k, a.n, a.d, a.nz, LAMBDA i, j : IF i = e.i /\ j = e.j THEN e.z ELSE Cell(a, i, j))
    [] OTHER -> LET a == A(s, e) IN Mk(a.k, a.n, a.d, a.nz, LAMBDA i, j : Cell(a, i, j))   \* copy, dense, pickle, inter, up (the original instants of an oversampled signal)
Involved(s, e) == CASE e.op = "new" -> {} [] e.op = "poke" -> {e.t} [] e.op \in {"sup", "apps", "appst"} -> {e.a, e.b} [] OTHER -> {e.a}
(* sparse models do not represent trailing zeros *)
Lenient(s, e, out) == out.kind = "s" \/ \E u \in Involved(s, e) : s.slot[u].kind = "s"
LastNz(g) == SetMax({j \in 1..g.n : \E i \in 1..g.k : g.m[i][j] # Z}, 0)
Fit(x, n) == Mk(x.k, n, x.d, x.nz, LAMBDA i, j : Cell(x, i, j))

(* what a snapshot says *)
Look(o) == [k |-> o.k, n |-> o.n, d |-> o.d, nz |-> o.nz, m |-> o.m]
FromBlocks(o) == [i \in 1..o.k |-> [j \in 1..o.n |-> CSum({p \in 1..Len(o.bl) : o.bl[p].o < j /\ j <= o.bl[p].o + o.bl[p].n},
                                                         [p \in 1..Len(o.bl) |-> LET q == j - o.bl[p].o IN IF q >= 1 /\ q <= o.bl[p].n THEN o.bl[p].m[i][q] ELSE Z])]]
Abs2(x) == x[1] * x[1] + x[2] * x[2]
SnapBad(o) ==
  IF o.exc # "" THEN {"unreadable-signal"} ELSE
  IF Len(o.m) # o.k \/ \E i \in 1..o.k : Len(o.m[i]) # o.n THEN {"shape-inconsistent"} ELSE
  (IF \E p \in 1..Len(o.bl) : o.bl[p].k # o.k \/ o.bl[p].o < 0 \/ o.bl[p].o + o.bl[p].n > o.n THEN {"block-outside-signal"}
   ELSE IF FromBlocks(o) # o.m THEN {"blocks-disagree-with-samples"} ELSE {})
  \cup (IF \E p \in 1..(Len(o.bl) - 1) : o.bl[p].o + o.bl[p].n > o.bl[p + 1].o THEN {"blocks-overlap"} ELSE {})
  \cup (IF o.en # [i \in 1..o.k |-> ISum(o.n, [j \in 1..o.n |-> Abs2(o.m[i][j])])] /\ o.n > 0 THEN {"wrong-energy"} ELSE {})
  \cup (IF o.n > 0 /\ o.pw # o.en THEN {"wrong-power"} ELSE {})
  \cup (IF o.meta # "" THEN {"wrong-metadata"} ELSE {})
Bad(s, e) ==
  IF e.exc # "" /\ Ok(s, e) THEN {"unexpected-exception"}
  ELSE IF e.exc = "" /\ ~Ok(s, e) THEN {"invalid-accepted"}
  ELSE LET snaps == UNION {SnapBad(e.all[u]) : u \in 1..Len(e.all)}
           others == {u \in 1..Len(e.all) : u # e.t \/ e.exc # ""}
       IN IF snaps # {} THEN snaps
          ELSE (IF \E u \in others : Look(e.all[u]) # Look(s.slot[u]) THEN {"operand-modified"} ELSE {})
               \cup (IF e.exc # "" THEN {} ELSE
                 LET x == Expect(s, e) o == e.all[e.t] IN
                 (IF o.k # x.k THEN {"wrong-streams"} ELSE
                  IF IF Lenient(s, e, o) THEN o.n < LastNz(x) \/ o.n > x.n ELSE o.n # x.n THEN {"wrong-length"} ELSE
                  IF o.m # Fit(x, o.n).m THEN {"wrong-samples"} ELSE {})
                 \cup (IF o.d # x.d THEN {"wrong-delay"} ELSE {})
                 \cup (IF o.nz # x.nz THEN {"wrong-noise-power"} ELSE {}))
Kind(s, e) == CASE e.op = "new" -> e.kind [] e.op = "poke" -> s.slot[e.t].kind [] e.op \in {"dense", "inter", "up"} -> "d" [] OTHER -> A(s, e).kind
Shares(s, e) == \/ e.op = "dense" /\ A(s, e).kind = "d"
                \/ e.op = "slice"
                \/ e.op = "sup" /\ A(s, e).kind = "s"
Result(s, e) ==
  IF "all" \in DOMAIN e THEN LET o == e.all[e.t] IN [k |-> o.k, n |-> o.n, d |-> o.d, nz |-> o.nz, m |-> o.m, kind |-> o.kind]
  ELSE LET x == Expect(s, e) IN [k |-> x.k, n |-> x.n, d |-> x.d, nz |-> x.nz, m |-> x.m, kind |-> Kind(s, e)]
Post(s, e) ==
  IF e.exc # "" THEN [s EXCEPT !.len = @ + 1]
  ELSE LET r == Result(s, e)
           x == [k |-> r.k, n |-> r.n, d |-> r.d, nz |-> r.nz, m |-> r.m, kind |-> r.kind, own |-> IF e.op = "poke" THEN TRUE ELSE ~Shares(s, e)]
           s2 == IF Shares(s, e) THEN [s EXCEPT !.slot[e.a].own = FALSE] ELSE s
       IN [s2 EXCEPT !.slot[e.t] = x, !.len = @ + 1]

(* the small model *)
Lib == { [kind |-> "d", k |-> 1, n |-> 2, d |-> 0, off |-> 0, nz |-> 0, m |-> <<<<<<1, 0>>, <<0, 1>>>>>>],
         [kind |-> "s", k |-> 2, n |-> 3, d |-> 1, off |-> 0, nz |-> 1, m |-> <<<<Z, Z, <<2, 0>>>>, <<<<1, 1>>, Z, Z>>>>],
         [kind |-> "d", k |-> 2, n |-> 0, d |-> 0, off |-> 0, nz |-> 0, m |-> <<<<>>, <<>>>>] }
WithE(s, e) == LET f == e @@ [exc |-> ""] IN IF Ok(s, f) THEN f ELSE e @@ [exc |-> "E"]
Ops(s) ==
  LET K == 1..Len(s.slot)
      full == {u \in K : s.slot[u].k > 0}
      T == full \cup {u \in K \ full : \A v \in K \ full : u <= v}
  IN {[op |-> "new", t |-> t, exc |-> ""] @@ g : t \in T, g \in Lib}
     \cup {WithE(s, [op |-> "sup", t |-> t, a |-> a, b |-> b, none |-> TRUE, idx |-> <<>>]) : t \in T, a \in full, b \in full}
     \cup {WithE(s, [op |-> "sup", t |-> t, a |-> a, b |-> b, none |-> FALSE, idx |-> q]) : t \in T, a \in full, b \in full, q \in {<<2>>, <<2, 1>>, <<>>}}
     \cup {WithE(s, [op |-> o, t |-> t, a |-> a, b |-> b]) : o \in {"apps", "appst"}, t \in T, a \in full, b \in full}
     \cup {[op |-> "slice", t |-> t, a |-> a, rsl |-> TRUE, rows |-> <<NONE, NONE, NONE>>, cols |-> q, exc |-> ""] : t \in T, a \in full, q \in {<<1, NONE, NONE>>, <<NONE, NONE, 2>>, <<-1, NONE, NONE>>}}
     \cup {[op |-> o, t |-> t, a |-> a, exc |-> ""] : o \in {"copy", "dense", "pickle", "up"}, t \in T, a \in full}
Bounded(s) == s.len <= MaxLen /\ \A u \in 1..Len(s.slot) : s.slot[u].k <= 3 /\ s.slot[u].n <= 5
AbsCell(g, i, t) == Cell(g, i, t - g.d + 1)
Default == [none |-> TRUE, idx |-> <<>>]
(* superposition is commutative on the common window, and energy is preserved by appending *)
InvBad(s) ==
  LET U == {u \in 1..Len(s.slot) : ~Empty(s.slot[u])} IN
  (IF \E u \in 1..Len(s.slot) : LET g == s.slot[u] IN Len(g.m) # g.k \/ (\E i \in 1..g.k : Len(g.m[i]) # g.n) \/ g.d < 0 THEN {"malformed"} ELSE {})
  \cup (IF \E u, v \in U : LET a == s.slot[u] b == s.slot[v] IN
           /\ a.k = b.k /\ u < v
           /\ LET x == Sup(a, b, Default) y == Sup(b, a, Default) IN
              \E i \in 1..a.k : \E t \in Mx(a.d, b.d)..Mx(a.d + a.n, b.d + b.n) : AbsCell(x, i, t) # AbsCell(y, i, t)
        THEN {"superposition-not-commutative"} ELSE {})
StepBad(s, t) == IF Cardinality({u \in 1..Len(s.slot) : Look(s.slot[u]) # Look(t.slot[u])}) > 1 THEN {"several-slots-changed"} ELSE {}
====
