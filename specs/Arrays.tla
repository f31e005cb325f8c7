---- MODULE Arrays ----
(* C13: antenna arrays. el: the elements in array order, each [m: mode "t"/"r"/"d", p: position in the array, w: weight];
   kind "uniform" arrays replace their elements by copies of a prototype on a lattice of dims with spacing sp whenever either changes,
   kind "custom" arrays grow by addition. pose: pose of the array below its device. snap: array states taken so far. *)
EXTENDS Naturals, Integers, Sequences, FiniteSets, TLC
CONSTANTS MaxEl

I3 == <<<<1, 0, 0>>, <<0, 1, 0>>, <<0, 0, 1>>>>
Dot(a, b) == a[1] * b[1] + a[2] * b[2] + a[3] * b[3]
Col(m, j) == <<m[1][j], m[2][j], m[3][j]>>
MM(a, b) == [i \in 1..3 |-> [j \in 1..3 |-> Dot(a[i], Col(b, j))]]
MV(a, v) == [i \in 1..3 |-> Dot(a[i], v)]
Mul(p, q) == [r |-> MM(p.r, q.r), t |-> [i \in 1..3 |-> MV(p.r, q.t)[i] + p.t[i]]]
CMul(a, b) == <<a[1] * b[1] - a[2] * b[2], a[1] * b[2] + a[2] * b[1]>>
Range(q) == {q[i] : i \in 1..Len(q)}
Lattice(d, sp) == {<<sp * x, sp * y, sp * z>> : x \in 0..(d[1] - 1), y \in 0..(d[2] - 1), z \in 0..(d[3] - 1)}
Init0(c) == [kind |-> c.kind, el |-> c.el, dims |-> c.dims, sp |-> c.sp, proto |-> c.proto, pose |-> c.pose, snap |-> <<>>]
InitStates == {Init0([kind |-> "custom", el |-> <<>>, dims |-> <<0, 0, 0>>, sp |-> 1, proto |-> "d", pose |-> [r |-> I3, t |-> <<0, 0, 0>>]])}
(* indices of the elements available in a mode, in array order *)
Has(m, mode) == mode = "d" \/ m = "d" \/ m = mode
Idx(el, mode) == SelectSeq([i \in 1..Len(el) |-> i], LAMBDA i : Has(el[i].m, mode))
Pos(el, q) == [i \in 1..Len(q) |-> el[q[i]].p]
Modes(el, q) == [i \in 1..Len(q) |-> el[q[i]].m]
All(el) == [i \in 1..Len(el) |-> i]
(* powers of the imaginary unit: a plane wave of carrier c/4 over integer positions *)
JPow(k) == <<<<1, 0>>, <<0, 1>>, <<-1, 0>>, <<0, -1>>>>[(((k % 4) + 4) % 4) + 1]
Wave(el, q, k) == [i \in 1..Len(q) |-> JPow(Dot(k, el[q[i]].p))]
D2(a, b) == LET d == [i \in 1..3 |-> a[i] - b[i]] IN Dot(d, d)
Rooted(n) == {d \in 0..40 : d * d = n}
(* spherical wave: minus j to the distance, wherever the distance is integral *)
NearOk(el, q, x, resp) == /\ Len(resp) = Len(q)
                          /\ \A i \in 1..Len(q) : \A d \in Rooted(D2(el[q[i]].p, x)) : resp[i] = JPow(-d)
Pick(q, ix) == [i \in 1..Len(ix) |-> q[ix[i]]]
Near(a, b) == a - b \in -1..1
SameRows(a, b) == Len(a) = Len(b) /\ \A i \in 1..Len(a) : Len(a[i]) = Len(b[i]) /\ \A j \in 1..Len(a[i]) : Near(a[i][j], b[i][j])

Relattice(s, e) == [s EXCEPT !.el = [i \in 1..Len(e.pos) |-> [m |-> s.proto, p |-> e.pos[i], w |-> <<1, 0>>]]]
Post(s, e) ==
  IF e.exc # "" THEN s ELSE
  CASE e.op = "add" -> [s EXCEPT !.el = Append(@, [m |-> e.m, p |-> e.t, w |-> e.w])]
    [] e.op = "mode" -> [s EXCEPT !.el[e.i].m = e.m]
    [] e.op = "weight" -> [s EXCEPT !.el[e.i].w = e.w]
    [] e.op = "move" -> [s EXCEPT !.el[e.i].p = e.t]
    [] e.op = "pose" -> [s EXCEPT !.pose = e.p]
    [] e.op = "dims" -> [Relattice(s, e) EXCEPT !.dims = e.d]
    [] e.op = "space" -> [Relattice(s, e) EXCEPT !.sp = e.sp]
    [] e.op = "state" -> [s EXCEPT !.snap = Append(@, [el |-> s.el, pose |-> Mul(e.base, s.pose)])]
    [] OTHER -> s
Expect(s, e) == CASE e.op \in {"tx", "rx"} -> Len(e.x) = Len(Idx(s.el, IF e.op = "tx" THEN "t" ELSE "r")) [] OTHER -> TRUE
Report(el, e) ==
  LET t == Idx(el, "t")  r == Idx(el, "r")  a == All(el) IN
  (IF e.n # <<Len(a), Len(t), Len(r)>> THEN {"wrong-antenna-count"} ELSE {})
  \cup (IF e.modes # Modes(el, a) THEN {"wrong-modes"} ELSE {})
  \cup (IF e.tid # t \/ e.rid # r THEN {"wrong-antenna-selection"} ELSE {})
  \cup (IF e.top # Pos(el, a) \/ e.ttop # Pos(el, t) \/ e.rtop # Pos(el, r) THEN {"wrong-topology"} ELSE {})
Bad(s, e) ==
  IF e.exc # "" /\ Expect(s, e) THEN {"unexpected-exception"}
  ELSE IF e.exc = "" /\ ~Expect(s, e) THEN {"stream-count-mismatch-accepted"}
  ELSE IF e.exc # "" THEN {}
  ELSE CASE e.op \in {"dims", "space"} ->
         LET d == IF e.op = "dims" THEN e.d ELSE s.dims  sp == IF e.op = "space" THEN e.sp ELSE s.sp IN
         IF Len(e.pos) # d[1] * d[2] * d[3] \/ Range(e.pos) # Lattice(d, sp) THEN {"elements-off-the-lattice"} ELSE {}
    [] e.op = "read" -> Report(s.el, e) \cup (IF s.kind = "uniform" /\ (e.dims # s.dims \/ e.sp # s.sp) THEN {"wrong-dimensions"} ELSE {})
                        \cup (IF e.pose # s.pose THEN {"wrong-pose"} ELSE {})
    [] e.op = "old" -> LET z == s.snap[e.k] IN Report(z.el, e) \cup (IF e.pose # z.pose THEN {"state-pose-differs"} ELSE {})
    [] e.op = "sub" -> LET z == s.snap[e.k]  q == Pick(Idx(z.el, e.mode), e.ix)
                           el == [i \in 1..Len(q) |-> z.el[q[i]]] IN
                       (IF e.modes # Modes(z.el, q) \/ e.top # Pos(z.el, q) THEN {"wrong-subarray"} ELSE {})
                       \cup (IF e.pose # z.pose THEN {"subarray-pose-differs"} ELSE {})
    [] e.op = "wave" -> LET el == IF e.k = 0 THEN s.el ELSE s.snap[e.k].el IN IF e.resp # Wave(el, Idx(el, e.mode), e.dir) THEN {"wrong-plane-wave-response"} ELSE {}
    [] e.op = "near" -> LET el == IF e.k = 0 THEN s.el ELSE s.snap[e.k].el IN
         (IF ~NearOk(el, Idx(el, e.mode), e.x, e.resp) THEN {"wrong-near-field-response"} ELSE {})
         \cup (IF e.resp # e.gresp THEN {"frames-disagree-on-response"} ELSE {})
    [] e.op = "char" -> LET el == IF e.k = 0 THEN s.el ELSE s.snap[e.k].el  q == Idx(el, e.mode) IN
         IF ~SameRows(e.sel, [i \in 1..Len(q) |-> e.full[q[i]]]) THEN {"characteristics-of-other-elements"}
         ELSE IF ~SameRows(e.sel, e.glob) \/ ~SameRows(e.sel, e.dir) THEN {"frames-disagree-on-characteristics"} ELSE {}
    [] e.op \in {"tx", "rx"} -> LET q == Idx(s.el, IF e.op = "tx" THEN "t" ELSE "r") IN
         IF e.y # [i \in 1..Len(q) |-> [j \in 1..Len(e.x[i]) |-> CMul(s.el[q[i]].w, e.x[i][j])]] THEN {"wrong-element-weight"} ELSE {}
    [] OTHER -> {}
Ops(s) ==
  (IF s.kind = "custom" /\ Len(s.el) < MaxEl THEN {[op |-> "add", m |-> m, t |-> <<Len(s.el) + 1, 0, 0>>, w |-> <<2, 1>>, exc |-> ""] : m \in {"t", "r", "d"}} ELSE {})
  \cup {[op |-> "mode", i |-> i, m |-> m, exc |-> ""] : i \in 1..Len(s.el), m \in {"t", "r", "d"}}
  \cup {[op |-> "move", i |-> i, t |-> <<0, i, 3>>, exc |-> ""] : i \in 1..Len(s.el)}
  \cup (IF Len(s.snap) < 1 THEN {[op |-> "state", base |-> [r |-> I3, t |-> <<7, 0, 0>>], exc |-> ""]} ELSE {})
Bounded(s) == TRUE
InvBad(s) ==
  (IF \E i \in 1..Len(s.el) : ~\E mode \in {"t", "r"} : i \in Range(Idx(s.el, mode)) THEN {"element-without-use"} ELSE {})
  \cup (IF Len(Idx(s.el, "t")) + Len(Idx(s.el, "r")) # Len(s.el) + Cardinality({i \in 1..Len(s.el) : s.el[i].m = "d"}) THEN {"duplex-not-counted-twice"} ELSE {})
StepBad(s, t) == IF \E k \in 1..Len(s.snap) : s.snap[k] # t.snap[k] THEN {"state-altered-afterwards"} ELSE {}
====
