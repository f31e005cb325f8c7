---- MODULE Record ----
(* C05: recording, replay and modes of scenarios.
   Two scenario slots share the files 1..NF.  A recorded drop is the vector of identifiers of its parts
   (timestamp, transmissions, impinging signals, operator inputs, receptions, triggers, channel realizations).
   Campaigns are numbered; 0 is the unnamed one, Reserved a name rejected by the scenario.               *)
EXTENDS Naturals, Integers, Sequences, FiniteSets, TLC
CONSTANTS NF, NC, Reserved, MaxDrops, MaxDev
Files == 1..NF
Camps == 0..NC
MDef == 0
MRec == 1
MPlay == 2
NewSlot(n) == [m |-> MDef, n |-> 0, cp |-> -1, dev |-> n, f |-> 0, rf |-> 0]
Init0(c) == [sl |-> [i \in 1..2 |-> NewSlot(c.dev[i])],
             has |-> [f \in Files |-> [k \in Camps |-> FALSE]],
             drops |-> [f \in Files |-> [k \in Camps |-> <<>>]],
             sdev |-> [f \in Files |-> [k \in Camps |-> 0]]]
InitStates == {Init0([dev |-> <<1, 1>>])}
Exists(s, f) == \E k \in Camps : s.has[f][k]
Fresh(s) == [k \in Camps |-> <<>>]
Norm(k) == IF k = -1 THEN 0 ELSE k         \* an unspecified campaign may be reported as unnamed or by its default name
SameCamp(a, b) == Norm(a) = Norm(b)

(* does the operation have to be rejected? *)
Reject(s, e) ==
  LET x == s.sl[e.i] IN
  CASE e.op = "new" -> x.m # MDef
    [] e.op = "record" -> x.m # MDef \/ e.k = Reserved
    [] e.op = "campaign" -> e.k = Reserved \/ (x.m # MDef /\ ~SameCamp(e.k, x.cp))
    [] e.op = "replay" ->
         LET f == IF e.f = 0 THEN x.rf ELSE e.f IN
         f = 0 \/ ~Exists(s, f) \/ (f # 0 /\ (~s.has[f][e.k] \/ e.off < 0 \/ e.off >= Len(s.drops[f][e.k])))
    [] e.op = "load" -> ~s.has[e.f][e.k] \/ e.off < 0 \/ e.off >= Len(s.drops[e.f][e.k])
    [] e.op = "drop" -> x.m = MPlay /\ x.n >= Len(s.drops[x.f][x.cp])
    [] OTHER -> FALSE
Tolerated(s, e) ==      \* either outcome is fine: a recording of its own cannot be replayed while it is written
  e.op = "replay" /\ s.sl[e.i].m = MRec /\ s.sl[e.i].f = (IF e.f = 0 THEN s.sl[e.i].rf ELSE e.f)

Stopped(x) == [x EXCEPT !.m = MDef, !.n = 0, !.f = 0]
Post(s, e) ==
  IF e.exc # "" THEN s
  ELSE LET x == s.sl[e.i] IN
  CASE e.op = "new" -> [s EXCEPT !.sl[e.i].dev = @ + 1]
    [] e.op = "record" ->
         LET t == IF e.ow THEN [s EXCEPT !.has[e.f] = [k \in Camps |-> FALSE], !.drops[e.f] = [k \in Camps |-> <<>>], !.sdev[e.f] = [k \in Camps |-> 0]] ELSE s
         IN [t EXCEPT !.has[e.f][e.k] = TRUE,
                      !.sdev[e.f][e.k] = IF t.has[e.f][e.k] THEN @ ELSE x.dev,
                      !.sl[e.i] = [x EXCEPT !.m = MRec, !.n = 0, !.cp = e.k, !.f = e.f]]
    [] e.op = "campaign" -> IF SameCamp(e.k, x.cp) THEN s ELSE [s EXCEPT !.sl[e.i].cp = e.k, !.sl[e.i].n = 0]
    [] e.op = "replay" ->
         LET f == IF e.f = 0 THEN x.rf ELSE e.f IN
         [s EXCEPT !.sl[e.i] = [x EXCEPT !.m = MPlay, !.n = e.off, !.cp = e.k, !.f = f, !.rf = f]]
    [] e.op = "load" -> [s EXCEPT !.sl[e.i] = [m |-> MPlay, n |-> e.off, cp |-> e.k, dev |-> s.sdev[e.f][e.k], f |-> e.f, rf |-> e.f]]
    [] e.op = "stop" -> [s EXCEPT !.sl[e.i] = Stopped(x)]
    [] e.op = "drop" ->
         IF x.m = MDef THEN s
         ELSE IF x.m = MRec THEN [s EXCEPT !.drops[x.f][x.cp] = Append(@, e.v), !.sl[e.i].n = @ + 1]
         ELSE [s EXCEPT !.sl[e.i].n = @ + 1]
    [] OTHER -> s
(* the state reported after the operation: e.m, e.n, e.cp, e.dev *)
Reported(s, e) ==
  LET x == s.sl[e.i] IN
  (IF e.m # x.m THEN {"wrong-mode"} ELSE {})
  \cup (IF e.n # x.n THEN {"wrong-drop-counter"} ELSE {})
  \cup (IF ~SameCamp(e.cp, x.cp) THEN {"wrong-campaign"} ELSE {})
  \cup (IF e.dev # x.dev THEN {"wrong-devices"} ELSE {})
Bad(s, e) ==
  LET rej == Reject(s, e) IN
  (IF e.exc # "" /\ ~rej /\ ~Tolerated(s, e) THEN {"unexpected-exception"} ELSE {})
  \cup (IF e.exc = "" /\ rej THEN {"not-rejected"} ELSE {})
  \cup (IF (e.exc # "") # rej /\ ~Tolerated(s, e) THEN {} ELSE Reported(Post(s, e), e))
  \cup (IF e.exc = "" /\ ~rej /\ e.op = "drop" /\ s.sl[e.i].m = MPlay THEN
          LET x == s.sl[e.i]
              want == s.drops[x.f][x.cp][x.n + 1]
          IN {<<"replayed-differs-in", p>> : p \in {q \in 1..Len(want) : e.v[q] # want[q]}}
             \cup (IF e.cbt # want[2] THEN {"transmit-callbacks"} ELSE {})
             \cup (IF e.cbr # want[4] THEN {"receive-callbacks"} ELSE {})
        ELSE {})
  \cup (IF e.exc = "" /\ ~rej /\ e.op \in {"replay", "load"} THEN
          LET f == IF e.f = 0 THEN s.sl[e.i].rf ELSE e.f IN
          IF e.ret # Len(s.drops[f][e.k]) - e.off THEN {"wrong-number-of-drops"} ELSE {}
        ELSE {})

(* ---- exhaustive model: every rejected request included *)
Free(s, i, f) == s.sl[3 - i].f # f
E(i, op) == [i |-> i, op |-> op]
Fill(s, e) ==
  LET d == e @@ [exc |-> "", v |-> <<1, 1, 1, 1>>, cbt |-> 1, cbr |-> 1, ret |-> 0]
      x == IF Reject(s, d) THEN [d EXCEPT !.exc = "E"] ELSE d
  IN x
NDrops(s) == Len(s.drops[1][0]) + Len(s.drops[1][NC]) + Len(s.drops[NF][0]) + Len(s.drops[NF][NC])
Fresh2(s) == NDrops(s) + 1
Ops(s) ==
  LET raw ==
      UNION {
        {[i |-> i, op |-> "new"], [i |-> i, op |-> "stop"], [i |-> i, op |-> "drop", v |-> <<Fresh2(s), Fresh2(s), 1, Fresh2(s)>>]}
        \cup {[i |-> i, op |-> "campaign", k |-> k] : k \in Camps \cup {Reserved}}
        \cup {[i |-> i, op |-> "record", f |-> f, k |-> k, ow |-> ow] : f \in {g \in Files : Free(s, i, g)}, k \in Camps \cup {Reserved}, ow \in BOOLEAN}
        \cup {[i |-> i, op |-> "replay", f |-> f, k |-> k, off |-> o] :
                 f \in {g \in 0..NF : IF g = 0 THEN s.sl[i].rf = 0 \/ Free(s, i, s.sl[i].rf) ELSE Free(s, i, g)}, k \in Camps, o \in {-1, 0, 1}}
        \cup {[i |-> i, op |-> "load", f |-> f, k |-> k, off |-> o] : f \in {g \in Files : Free(s, i, g)}, k \in Camps, o \in {0, 1}}
        : i \in 1..2}
  IN {Fill(s, e) : e \in raw}
Bounded(s) == NDrops(s) <= MaxDrops /\ s.sl[1].dev + s.sl[2].dev <= MaxDev
InvBad(s) ==
  (IF \E i \in 1..2 : s.sl[i].m = MDef /\ (s.sl[i].n # 0 \/ s.sl[i].f # 0) THEN {"default-mode-not-idle"} ELSE {})
  \cup (IF \E i \in 1..2 : s.sl[i].m # MDef /\ ~s.has[s.sl[i].f][Norm(s.sl[i].cp)] THEN {"mode-without-campaign"} ELSE {})
  \cup (IF \E i \in 1..2 : s.sl[i].m = MPlay /\ s.sl[i].n > Len(s.drops[s.sl[i].f][s.sl[i].cp]) THEN {"replay-beyond-end"} ELSE {})
  \cup (IF s.sl[1].m = MRec /\ s.sl[2].f = s.sl[1].f THEN {"file-shared-with-recording"} ELSE {})
StepBad(s, t) ==
  (* stored drops are immutable: campaigns only grow, or the whole file is overwritten *)
  {<<"stored-drop-changed", f>> : f \in {g \in Files : \E k \in Camps :
       /\ ~(\A j \in Camps : t.drops[g][j] = <<>>)
       /\ SubSeq(t.drops[g][k], 1, Len(s.drops[g][k])) # s.drops[g][k]}}
  \cup (IF \E i \in 1..2 : t.sl[i].n > s.sl[i].n + 1 /\ s.sl[i].m = t.sl[i].m /\ t.sl[i].m = MRec THEN {"counter-jumped"} ELSE {})
====
