---- MODULE Frames ----
(* C12: kinematic chains. Frames 1..n; frame f is fixed[f] (a chain root without pose) or movable with a local pose
   [r: 3x3 integer rotation, t: integer translation] below base[f] (0: none). *)
EXTENDS Naturals, Integers, Sequences, FiniteSets, TLC
CONSTANTS MaxF

I3 == <<<<1, 0, 0>>, <<0, 1, 0>>, <<0, 0, 1>>>>
Z3 == <<0, 0, 0>>
No == [r |-> I3, t |-> Z3]
Dot(a, b) == a[1] * b[1] + a[2] * b[2] + a[3] * b[3]
Col(m, j) == <<m[1][j], m[2][j], m[3][j]>>
MM(a, b) == [i \in 1..3 |-> [j \in 1..3 |-> Dot(a[i], Col(b, j))]]
MV(a, v) == [i \in 1..3 |-> Dot(a[i], v)]
VA(a, b) == [i \in 1..3 |-> a[i] + b[i]]
Tr(m) == [i \in 1..3 |-> Col(m, i)]
Mul(p, q) == [r |-> MM(p.r, q.r), t |-> VA(MV(p.r, q.t), p.t)]
Inv(p) == [r |-> Tr(p.r), t |-> LET x == MV(Tr(p.r), p.t) IN [i \in 1..3 |-> -x[i]]]
Det(m) == Dot(m[1], <<m[2][2] * m[3][3] - m[2][3] * m[3][2], m[2][3] * m[3][1] - m[2][1] * m[3][3], m[2][1] * m[3][2] - m[2][2] * m[3][1]>>)
Proper(m) == MM(m, Tr(m)) = I3 /\ Det(m) = 1
(* rotations by quarter turns about the fixed axes: roll, then pitch, then yaw *)
Q(k) == ((k % 4) + 4) % 4
Cs(k) == <<1, 0, -1, 0>>[Q(k) + 1]
Sn(k) == <<0, 1, 0, -1>>[Q(k) + 1]
Rpy(q) == LET cr == Cs(q[1]) sr == Sn(q[1]) cp == Cs(q[2]) sp == Sn(q[2]) cy == Cs(q[3]) sy == Sn(q[3]) IN
  MM(<<<<cy, -sy, 0>>, <<sy, cy, 0>>, <<0, 0, 1>>>>, MM(<<<<cp, 0, sp>>, <<0, 1, 0>>, <<-sp, 0, cp>>>>, <<<<1, 0, 0>>, <<0, cr, -sr>>, <<0, sr, cr>>>>))

Init0(c) == [n |-> c.n, fixed |-> c.fixed, base |-> c.base, pose |-> c.pose]
InitStates == {Init0([n |-> MaxF, fixed |-> <<FALSE, FALSE, TRUE>>, base |-> <<0, 0, 0>>, pose |-> <<No, No, No>>])}
RECURSIVE Below(_, _, _, _)
Below(s, f, g, k) == k > 0 /\ (f = g \/ (f # 0 /\ Below(s, s.base[f], g, k - 1)))   \* g is f or an ancestor of f
RECURSIVE Fwd(_, _)
Fwd(s, f) == IF s.base[f] = 0 THEN s.pose[f] ELSE Mul(Fwd(s, s.base[f]), s.pose[f])
Kids(s, b) == {f \in 1..s.n : s.base[f] = b}
CanLink(s, f, b) == ~s.fixed[f] /\ (b = 0 \/ ~Below(s, b, f, s.n + 1))

Post(s, e) ==
  IF e.exc # "" THEN s ELSE
  CASE e.op = "base" -> [s EXCEPT !.base[e.f] = e.b]
    [] e.op = "link" -> [s EXCEPT !.base[e.f] = e.b]
    [] e.op = "unlink" -> IF s.base[e.f] = e.b THEN [s EXCEPT !.base[e.f] = 0] ELSE s
    [] e.op = "pos" -> [s EXCEPT !.pose[e.f].t = e.t]
    [] e.op = "ori" -> [s EXCEPT !.pose[e.f].r = Rpy(e.q)]
    [] e.op = "pose" -> [s EXCEPT !.pose[e.f] = [r |-> Rpy(e.q), t |-> e.t]]
    [] e.op = "look" -> [s EXCEPT !.pose[e.f] = e.p]
    [] OTHER -> s
Expect(s, e) ==
  CASE e.op = "unlink" -> s.base[e.f] = e.b \/ ~e.force
    [] OTHER -> TRUE
(* a positive multiple of the third axis reaches from the position to the target *)
Looks(p, target) == LET d == [i \in 1..3 |-> target[i] - p.t[i]] a == Col(p.r, 3) IN
  Dot(d, a) > 0 /\ \A i \in 1..3 : d[i] = Dot(d, a) * a[i]
Bad(s, e) ==
  IF e.exc # "" /\ Expect(s, e) THEN {"unexpected-exception"}
  ELSE IF e.exc = "" /\ ~Expect(s, e) THEN {"unknown-link-removed"}
  ELSE IF e.exc # "" THEN {}
  ELSE CASE e.op = "read" -> LET g == Fwd(s, e.f) IN
         (IF e.fw # g THEN {"global-pose-is-not-the-chain-product"} ELSE {})
         \cup (IF e.bw # Inv(g) THEN {"backwards-pose-is-not-the-inverse"} ELSE {})
         \cup (IF e.gt # g.t THEN {"global-position-differs"} ELSE {})
         \cup (IF Rpy(e.gq) # g.r THEN {"global-orientation-differs"} ELSE {})
         \cup (IF e.lo # s.pose[e.f] THEN {"local-pose-differs"} ELSE {})
         \cup (IF e.t # s.pose[e.f].t THEN {"position-differs"} ELSE {})
         \cup (IF Rpy(e.q) # s.pose[e.f].r THEN {"orientation-differs"} ELSE {})
         \cup (IF e.isb # (s.base[e.f] = 0) THEN {"wrong-base-flag"} ELSE {})
    [] e.op = "quat" -> IF e.r # s.pose[e.f].r THEN {"quaternion-differs"} ELSE {}
    [] e.op = "kids" -> IF {e.kids[i] : i \in 1..Len(e.kids)} # Kids(s, e.b) \/ Len(e.kids) # Cardinality(Kids(s, e.b)) THEN {"wrong-linked-frames"} ELSE {}
    [] e.op = "local" -> IF e.p # Mul(Inv(Fwd(s, e.f)), IF e.g = 0 THEN e.o ELSE Fwd(s, e.g)) THEN {"local-coordinates-differ"} ELSE {}
    [] e.op = "look" -> (IF e.p.t # s.pose[e.f].t \/ ~Proper(e.p.r) THEN {"look-deforms-pose"} ELSE IF ~Looks(e.p, e.t) THEN {"looks-elsewhere"} ELSE {})
    [] OTHER -> {}
Ops(s) ==
  {[op |-> k, f |-> f, b |-> b, exc |-> ""] : k \in {"base", "link"}, f \in {f \in 1..s.n : ~s.fixed[f]}, b \in {b \in 1..s.n : TRUE}}
  \cup {[op |-> "base", f |-> f, b |-> 0, exc |-> ""] : f \in {f \in 1..s.n : ~s.fixed[f]}}
  \cup {[op |-> "unlink", f |-> f, b |-> b, force |-> k, exc |-> IF s.base[f] # b /\ k THEN "E" ELSE ""] : f \in {f \in 1..s.n : ~s.fixed[f]}, b \in 1..s.n, k \in BOOLEAN}
  \cup {[op |-> "pos", f |-> f, t |-> <<f, 2, 0>>, exc |-> ""] : f \in {f \in 1..s.n : ~s.fixed[f]}}
  \cup {[op |-> "ori", f |-> f, q |-> <<1, 0, f>>, exc |-> ""] : f \in {f \in 1..s.n : ~s.fixed[f]}}
  \cup {[op |-> "pose", f |-> f, q |-> <<0, 0, 0>>, t |-> Z3, exc |-> ""] : f \in {f \in 1..s.n : ~s.fixed[f]}}
Bounded(s) == \A f \in 1..s.n : s.base[f] = 0 \/ ~Below(s, s.base[f], f, s.n + 1)
InvBad(s) ==
  (IF \E f \in 1..s.n : s.fixed[f] /\ (s.base[f] # 0 \/ s.pose[f] # No) THEN {"fixed-frame-moved"} ELSE {})
  \cup (IF \E f \in 1..s.n : ~Proper(s.pose[f].r) THEN {"improper-rotation"} ELSE {})
  \cup (IF \E f \in 1..s.n : Mul(Fwd(s, f), Inv(Fwd(s, f))) # No THEN {"inverse-is-no-inverse"} ELSE {})
(* a step moves or links a single frame, and only frames below it change their global pose *)
StepBad(s, t) ==
  LET touched == {f \in 1..s.n : s.base[f] # t.base[f] \/ s.pose[f] # t.pose[f]} IN
  (IF Cardinality(touched) > 1 THEN {"several-frames-changed"} ELSE {})
  \cup (IF \E g \in 1..s.n : Fwd(s, g) # Fwd(t, g) /\ ~\E f \in touched : Below(t, g, f, s.n + 1) THEN {"unrelated-frame-moved"} ELSE {})
====
