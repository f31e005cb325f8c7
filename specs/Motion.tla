---- MODULE Motion ----
(* C27: trajectories and the devices following them. Times in quarter seconds, positions and velocities in 1/64, angles (about z) in 1/64 quarter turns.
   c.tr: trajectories [k, p, q, a, b, s, d, v]: "linear" from pose (p, a) to (q, b) starting at s and lasting d, "static" pose (p, a) with velocity v, "bit" drawing the letter b of height 2 * s within 5 * d.
   c.dev: for each device its first trajectory and the local positions of its antennas.
   State: look[i] = [on, t]: whether trajectory i looks at the trajectory t, dev[d]: trajectory followed by device d. *)
EXTENDS Naturals, Integers, Sequences, FiniteSets, TLC
CONSTANTS MaxEdits
Init0(c) == [c |-> c, look |-> [i \in 1..Len(c.tr) |-> [on |-> FALSE, t |-> 0]], dev |-> [d \in 1..Len(c.dev) |-> c.dev[d].tr], edits |-> 0]
Vec(k, v) == <<k * v[1], k * v[2], k * v[3]>>
Plus(a, b) == <<a[1] + b[1], a[2] + b[2], a[3] + b[3]>>
Minus(a, b) == <<a[1] - b[1], a[2] - b[2], a[3] - b[3]>>
Div(v, k) == <<v[1] \div k, v[2] \div k, v[3] \div k>>
Clip(t, a, b) == IF t < a THEN a ELSE IF t > b THEN b ELSE t
(* corner points of the letter, reached at times 0, 2d, 3d, 4d and 5d *)
Corner(x, i) == LET h == 64 * x.s IN CASE i = 1 -> <<0, 2 * h, 0>> [] i = 2 -> <<0, 0, 0>> [] i = 3 -> <<h, 0, 0>> [] i = 4 -> <<h, h, 0>> [] OTHER -> <<0, h, 0>>
Leg(x, t) == IF t < 2 * x.d THEN [i |-> 1, a |-> 0, n |-> 2 * x.d] ELSE IF t < 3 * x.d THEN [i |-> 2, a |-> 2 * x.d, n |-> x.d] ELSE IF t < 4 * x.d THEN [i |-> 3, a |-> 3 * x.d, n |-> x.d] ELSE [i |-> 4, a |-> 4 * x.d, n |-> x.d]
Pos(x, t) ==
  CASE x.k = "linear" -> Plus(Vec(64, x.p), Div(Vec(64 * (Clip(t, x.s, x.s + x.d) - x.s), Minus(x.q, x.p)), x.d))
    [] x.k = "static" -> Vec(64, x.p)
    [] OTHER -> LET u == Clip(t, 0, 5 * x.d) l == Leg(x, u) IN Plus(Corner(x, l.i), Div(Vec(u - l.a, Minus(Corner(x, l.i + 1), Corner(x, l.i))), l.n))
Vel(x, t) ==
  CASE x.k = "linear" -> IF t >= x.s /\ t < x.s + x.d THEN Div(Vec(256, Minus(x.q, x.p)), x.d) ELSE <<0, 0, 0>>
    [] x.k = "static" -> Vec(64, x.v)
    [] OTHER -> IF t >= 0 /\ t < 5 * x.d THEN LET l == Leg(x, t) IN Div(Vec(4, Minus(Corner(x, l.i + 1), Corner(x, l.i))), l.n) ELSE <<0, 0, 0>>
Ang(x, t) ==
  CASE x.k = "linear" -> (64 * x.a + (64 * (x.b - x.a) * (Clip(t, x.s, x.s + x.d) - x.s)) \div x.d) % 256
    [] x.k = "static" -> (64 * x.a) % 256
    [] OTHER -> 0
End(x) == CASE x.k = "linear" -> x.s + x.d [] x.k = "static" -> 0 [] OTHER -> 5 * x.d
Turn(k, v) == CASE k = 0 -> v [] k = 1 -> <<-v[2], v[1], v[3]>> [] k = 2 -> <<-v[1], -v[2], v[3]>> [] OTHER -> <<v[2], -v[1], v[3]>>
Antennas(s, d, x, t) == [i \in 1..Len(s.c.dev[d].ant) |-> Plus(Pos(x, t), Vec(64, Turn(Ang(x, t) \div 64, s.c.dev[d].ant[i])))]
CourseEnd(s) == LET E == {End(s.c.tr[s.dev[d]]) : d \in 1..Len(s.dev)} IN CHOOSE m \in E : \A x \in E : x <= m
BadPose(s, i, t, o) == (* o: what was observed: ts, pos, vel, ang (-1 while looking somewhere), look (direction times distance) *)
  LET x == s.c.tr[i] l == s.look[i] IN
  (IF o.ts # t THEN {"timestamp"} ELSE {}) \cup (IF o.pos # Pos(x, t) THEN {"position"} ELSE {}) \cup (IF o.vel # Vel(x, t) THEN {"velocity"} ELSE {})
  \cup (IF l.on THEN LET w == Minus(Pos(s.c.tr[l.t], t), Pos(x, t)) IN IF w # <<0, 0, 0>> /\ o.look # w THEN {"viewing-direction"} ELSE {}
        ELSE IF o.ang # Ang(x, t) THEN {"orientation"} ELSE {})
Post(s, e) ==
  IF e.exc # "" THEN s ELSE
  CASE e.op = "assign" -> [s EXCEPT !.dev[e.d] = e.i, !.edits = @ + 1]
    [] e.op = "lookat" -> [s EXCEPT !.look[e.i] = [on |-> TRUE, t |-> e.t], !.edits = @ + 1]
    [] e.op = "disable" -> [s EXCEPT !.look[e.i].on = FALSE, !.edits = @ + 1]
    [] e.op = "enable" -> [s EXCEPT !.look[e.i].on = TRUE, !.edits = @ + 1]
    [] OTHER -> s
TargetOf(s, e) == s.c.tr[IF e.td = 0 THEN e.tt ELSE s.dev[e.td]]
(* no direction to look at without target, targets may not collide with the devices of the link *)
Refusing(s, e) == (e.op = "enable" /\ s.look[e.i].t = 0) \/ (e.op = "drop" /\ Pos(TargetOf(s, e), e.t) = Pos(s.c.tr[s.dev[1]], e.t))
Bad(s, e) ==
  IF Refusing(s, e) THEN (IF e.exc = "" THEN {"accepted"} ELSE {}) ELSE
  IF e.exc # "" THEN {"unexpected-exception"} ELSE
  CASE e.op = "sample" -> BadPose(s, e.i, e.t, e.o)
    [] e.op = "max" -> (IF e.v # End(s.c.tr[e.i]) THEN {"last-timestamp"} ELSE {})
    [] e.op = "length" -> (IF e.v # End(s.c.tr[s.dev[e.d]]) THEN {"last-timestamp"} ELSE {})
    [] e.op = "state" -> LET i == s.dev[e.d] x == s.c.tr[i] IN
         BadPose(s, i, e.t, e.o) \cup (IF ~s.look[i].on /\ Ang(x, e.t) % 64 = 0 /\ e.ant # Antennas(s, e.d, x, e.t) THEN {"antenna-positions"} ELSE {})
    [] e.op = "drop" -> (* states seen by the channels of a drop: [d, pos, vel, ts] *)
         (IF {e.seen[j].d : j \in 1..Len(e.seen)} # 1..Len(s.dev) THEN {"devices-missing"} ELSE {})
         \cup (IF \E j \in 1..Len(e.seen) : e.seen[j].pos # Pos(s.c.tr[s.dev[e.seen[j].d]], e.t) \/ e.seen[j].ts # e.t THEN {"drop-position"} ELSE {})
         \cup (IF \E j \in 1..Len(e.seen) : e.seen[j].vel # Vel(s.c.tr[s.dev[e.seen[j].d]], e.t) THEN {"drop-velocity"} ELSE {})
         \cup (IF e.tpos # Pos(TargetOf(s, e), e.t) \/ e.tvel # Vel(TargetOf(s, e), e.t) THEN {"target-motion"} ELSE {})
    [] e.op = "course" -> (* drops of a simulation sampling the devices' courses every e.step: for each drop the timestamp and positions of the devices *)
         LET n == CourseEnd(s) IN
         (IF Len(e.drops) # (IF n = 0 THEN 1 ELSE (n + e.step - 1) \div e.step) THEN {"drops-of-course"} ELSE {})
         \cup (IF \E j \in 1..Len(e.drops) : e.drops[j].ts # (j - 1) * e.step THEN {"course-timestamps"} ELSE {})
         \cup (IF \E j \in 1..Len(e.drops) : \E d \in 1..Len(s.dev) : e.drops[j].pos[d] # Pos(s.c.tr[s.dev[d]], (j - 1) * e.step) THEN {"course-positions"} ELSE {})
    [] OTHER -> {}
InvBad(s) ==
  UNION {LET x == s.c.tr[i] IN
         (IF \E t \in 0..End(x) : x.k # "static" /\ t < End(x) /\ Vec(4, Minus(Pos(x, t + 1), Pos(x, t))) # Vel(x, t) THEN {"not-continuous"} ELSE {})
         \cup (IF x.k = "linear" /\ (Pos(x, End(x)) # Vec(64, x.q) \/ Pos(x, x.s - 1) # Vec(64, x.p)) THEN {"end-points"} ELSE {}) : i \in 1..Len(s.c.tr)}
StepBad(s, t) == IF t.c # s.c THEN {"trajectory-altered"} ELSE {}
T1 == <<[k |-> "linear", p |-> <<1, 2, 0>>, q |-> <<5, -2, 8>>, a |-> 0, b |-> 1, s |-> 0, d |-> 4, v |-> <<0, 0, 0>>], [k |-> "static", p |-> <<3, 0, 1>>, q |-> <<0, 0, 0>>, a |-> 1, b |-> 0, s |-> 0, d |-> 1, v |-> <<0, 2, 0>>],
        [k |-> "bit", p |-> <<0, 0, 0>>, q |-> <<0, 0, 0>>, a |-> 0, b |-> 0, s |-> 1, d |-> 1, v |-> <<0, 0, 0>>]>>
T2 == [T1 EXCEPT ![1].s = 2, ![1].d = 2]
InitStates == {Init0([tr |-> t, dev |-> <<[tr |-> 1, ant |-> <<<<0, 0, 0>>, <<1, 0, 0>>>>], [tr |-> 2, ant |-> <<<<0, 1, 2>>>>]>>]) : t \in {T1, T2}}
Bounded(s) == s.edits <= MaxEdits
Seen(s, i, t) == LET x == s.c.tr[i] l == s.look[i] IN [ts |-> t, pos |-> Pos(x, t), vel |-> Vel(x, t), ang |-> IF l.on THEN -1 ELSE Ang(x, t), look |-> IF l.on THEN Minus(Pos(s.c.tr[l.t], t), Pos(x, t)) ELSE <<0, 0, 0>>]
Ops(s) ==
  {[op |-> "sample", i |-> i, t |-> t, o |-> Seen(s, i, t), exc |-> ""] : i \in 1..Len(s.c.tr), t \in {-1, 0, 1, 3, 4}}
  \cup {[op |-> "state", d |-> d, t |-> t, o |-> Seen(s, s.dev[d], t), ant |-> Antennas(s, d, s.c.tr[s.dev[d]], t), exc |-> ""] : d \in 1..2, t \in {0, 2, 4}}
  \cup {[op |-> "max", i |-> i, v |-> End(s.c.tr[i]), exc |-> ""] : i \in 1..Len(s.c.tr)}
  \cup (IF s.edits < MaxEdits THEN {[op |-> "assign", d |-> d, i |-> i, exc |-> ""] : d \in 1..2, i \in 1..3} \cup {[op |-> "lookat", i |-> i, t |-> j, exc |-> ""] : i \in 1..3, j \in 1..3}
        \cup {[op |-> "disable", i |-> i, exc |-> ""] : i \in 1..3} \cup {[op |-> "enable", i |-> i, exc |-> IF s.look[i].t = 0 THEN "rejected" ELSE ""] : i \in 1..3} ELSE {})
====
