---- MODULE Resources ----
(* C22: resource grids of orthogonal multicarrier frames. c: kind of waveform, os oversampling, refs reference symbol values (integers),
   pil table of default pilot symbols per subcarrier count and modulation order.
   State: n subcarriers, res resources [reps, px, num, den, els] with els a sequence of [t, r], secs frame sections
   [k "symbols", reps, pat, off] or [k "guard", reps, g samples per repetition at one sample per symbol], pilot the dedicated pilot section
   ([k "none"], [k "default"] or [k "custom", v]), rep whether references may repeat, order the modulation order. *)
EXTENDS Naturals, Integers, Sequences, FiniteSets, TLC
CONSTANTS MaxEdits
Init0(c) == [c |-> c, n |-> c.n, res |-> c.res, secs |-> c.secs, pilot |-> c.pilot, rep |-> TRUE, order |-> c.order, dc |-> c.dc, edits |-> 0]
RECURSIVE Cat(_)
Cat(q) == IF q = <<>> THEN <<>> ELSE Head(q) \o Cat(Tail(q))
RECURSIVE Sum(_)
Sum(q) == IF q = <<>> THEN 0 ELSE Head(q) + Sum(Tail(q))
Times(k, q) == Cat([i \in 1..k |-> q])
(* element types of one word using a resource *)
Cells(r) == TLCEval(Times(r.reps, Cat([i \in 1..Len(r.els) |-> [j \in 1..r.els[i].r |-> r.els[i].t]])))
Width(r) == r.reps * Sum([i \in 1..Len(r.els) |-> r.els[i].r])
Count(r, t) == r.reps * Sum([i \in 1..Len(r.els) |-> IF r.els[i].t = t THEN r.els[i].r ELSE 0])
(* resources of the frame's words in order, with the offset of their section *)
Words(s) == TLCEval(Cat([i \in 1..Len(s.secs) |-> IF s.secs[i].k = "guard" THEN <<>> ELSE Times(s.secs[i].reps, s.secs[i].pat)]))
Mask(s) == LET W == Words(s) Q == TLCEval([i \in 1..Len(s.res) |-> Cells(s.res[i])]) IN
  TLCEval([w \in 1..Len(W) |-> [k \in 1..s.n |-> IF k <= Len(Q[W[w]]) THEN Q[W[w]][k] ELSE "."]])
(* the flattened grid positions (w - 1) * n + k holding type t, in order *)
RECURSIVE Where(_, _, _, _)
Where(f, t, i, acc) == IF i > Len(f) THEN acc ELSE Where(f, t, i + 1, IF f[i] = t THEN Append(acc, i) ELSE acc)
Cellsof(s, t) == Where(TLCEval(Cat(Mask(s))), t, 1, <<>>)
NumOf(s, t) == LET W == Words(s) IN Sum([w \in 1..Len(W) |-> Count(s.res[W[w]], t)])
Fits(s) == \A w \in 1..Len(Words(s)) : Width(s.res[Words(s)[w]]) <= s.n
(* time domain *)
L(s) == s.n * s.c.os
Prefix(s, r) == IF r.px = "none" THEN 0 ELSE (L(s) * r.num) \div r.den
WordSamples(s, i) == L(s) + Prefix(s, s.res[i])
SecSamples(s, x) == IF x.k = "guard" THEN x.reps * x.g * s.c.os ELSE x.reps * Sum([j \in 1..Len(x.pat) |-> WordSamples(s, x.pat[j])])
PilotSamples(s) == IF s.pilot.k = "none" THEN 0 ELSE L(s)
Samples(s) == PilotSamples(s) + Sum([i \in 1..Len(s.secs) |-> SecSamples(s, s.secs[i])])
(* start of every word within the frame: running sample position over the sections *)
RECURSIVE Starts(_, _, _)
Starts(s, i, at) == IF i > Len(s.secs) THEN <<>> ELSE
  LET x == s.secs[i] IN
  IF x.k = "guard" THEN Starts(s, i + 1, at + SecSamples(s, x)) ELSE
  LET p == Times(x.reps, x.pat) IN [j \in 1..Len(p) |-> at + Sum([m \in 1..(j - 1) |-> WordSamples(s, p[m])])] \o Starts(s, i + 1, at + SecSamples(s, x))
WordStarts(s) == TLCEval(Starts(s, 1, PilotSamples(s)))
(* samples (0-based position in the frame, index of the first equal sample among those listed) a generic word w occupies *)
Spread(s, w) == LET r == s.res[Words(s)[w]] p == Prefix(s, r) b == WordStarts(s)[w] IN
  IF r.px = "cyclic" THEN [i \in 1..(p + L(s)) |-> <<b + i - 1, IF i <= L(s) THEN i ELSE i - L(s)>>]
  ELSE [i \in 1..L(s) |-> <<b + p + i - 1, i>>]
(* placing: data in order on the data elements, references on the reference elements *)
Placed(s, d, g) == LET m == Mask(s) f == TLCEval(Cat(m)) v == TLCEval(Cat(g)) D == TLCEval(Where(f, "D", 1, <<>>)) R == TLCEval(Where(f, "R", 1, <<>>)) IN
  /\ Len(g) = Len(m) /\ \A w \in 1..Len(g) : Len(g[w]) = s.n
  /\ \A j \in 1..Len(D) : v[D[j]] = d[j]
  /\ \A j \in 1..Len(R) : v[R[j]] = s.c.refs[((j - 1) % Len(s.c.refs)) + 1]
  /\ \A i \in 1..Len(f) : f[i] \notin {"D", "R"} => v[i] = 0
Pick(s, g) == LET D == TLCEval(Cellsof(s, "D")) f == TLCEval(Cat(g)) IN TLCEval([i \in 1..Len(D) |-> f[D[i]]])
(* a section's demodulation window may start early within cyclic prefixes only *)
Windows(s) == \A i \in 1..Len(s.secs) : s.secs[i].k = "guard" \/ s.secs[i].off = 0
  \/ (s.c.kind = "ofdm" /\ s.secs[i].off > 0 /\ \A j \in 1..Len(s.secs[i].pat) : LET r == s.res[s.secs[i].pat[j]] IN r.px = "cyclic" /\ Prefix(s, r) >= s.secs[i].off)
PilotSyms(s) == IF s.pilot.k = "custom" THEN [i \in 1..s.n |-> s.pilot.v[((i - 1) % Len(s.pilot.v)) + 1]] ELSE
  IF s.pilot.k = "default" THEN (CHOOSE p \in {s.c.pil[i] : i \in 1..Len(s.c.pil)} : p.n = s.n /\ p.order = s.order).v ELSE <<>>
(* word estimates h[w][k] at the references: the estimate reproduces the channel there, and a constant channel everywhere *)
Const(h) == \A w \in 1..Len(h) : \A k \in 1..Len(h[w]) : h[w][k] = h[1][1]
Post(s, e) ==
  IF e.exc # "" THEN s ELSE
  CASE e.op = "resource" -> [s EXCEPT !.res[e.i] = e.r, !.edits = @ + 1]
    [] e.op = "structure" -> [s EXCEPT !.secs = e.q, !.edits = @ + 1]
    [] e.op = "pilot" -> [s EXCEPT !.pilot = e.p, !.edits = @ + 1]
    [] e.op = "order" -> [s EXCEPT !.order = e.v, !.edits = @ + 1]
    [] e.op = "subcarriers" -> [s EXCEPT !.n = e.v, !.edits = @ + 1]
    [] e.op = "repeat" -> [s EXCEPT !.rep = e.v, !.edits = @ + 1]
    [] e.op = "dc" -> [s EXCEPT !.dc = e.v, !.edits = @ + 1]
    [] OTHER -> s
Refusing(s, e) ==
  CASE e.op = "place" -> Len(e.d) # NumOf(s, "D") \/ (~s.rep /\ NumOf(s, "R") > Len(s.c.refs))
    [] e.op = "estimate" -> NumOf(s, "R") = 0 \/ (~s.rep /\ NumOf(s, "R") > Len(s.c.refs))
    [] e.op = "subcarriers" -> e.v < 1
    [] e.op = "resource" -> e.r.reps < 1
    [] e.op = "structure" -> \E i \in 1..Len(e.q) : e.q[i].reps < 1
    [] OTHER -> FALSE
Bad(s, e) ==
  IF Refusing(s, e) THEN (IF e.exc = "" THEN {"accepted"} ELSE {}) ELSE
  IF e.exc # "" THEN {"unexpected-exception"} ELSE
  CASE e.op = "read" ->
      (IF e.data # NumOf(s, "D") THEN {"number-of-data-symbols"} ELSE {}) \cup (IF e.ref # NumOf(s, "R") THEN {"number-of-references"} ELSE {})
      \cup (IF e.syms # NumOf(s, "D") + NumOf(s, "R") THEN {"symbols-per-frame"} ELSE {})
      \cup (IF e.words # Len(Words(s)) THEN {"number-of-words"} ELSE {}) \cup (IF e.samples # Samples(s) THEN {"samples-per-frame"} ELSE {})
      \cup (IF e.mask # Mask(s) THEN {"mask"} ELSE {})
      \cup (IF e.secs # [i \in 1..Len(s.secs) |-> SecSamples(s, s.secs[i])] THEN {"section-samples"} ELSE {})
      \cup (IF e.n # s.n \/ e.order # s.order \/ e.dc # s.dc THEN {"configuration"} ELSE {})
    [] e.op = "place" -> IF ~Placed(s, e.d, e.g) THEN {"placed-grid"} ELSE {}
    [] e.op = "pick" -> (IF e.v # Pick(s, e.g) THEN {"picked-symbols"} ELSE {}) \cup (IF e.h # Pick(s, e.g) THEN {"picked-states"} ELSE {})
    [] e.op = "spread" -> (IF e.len # Samples(s) THEN {"frame-length"} ELSE {}) \cup (IF e.at # Spread(s, e.w) THEN {"sample-layout"} ELSE {})
    [] e.op = "blank" -> (IF e.len # Samples(s) THEN {"frame-length"} ELSE {}) \cup (IF e.rest # 0 THEN {"not-silent"} ELSE {})
         \cup (IF e.pilot # PilotSyms(s) THEN {"pilot-symbols"} ELSE {}) \cup (IF e.alone # PilotSamples(s) THEN {"pilot-length"} ELSE {})
    [] e.op = "demodulate" -> IF Windows(s) /\ e.back # e.g THEN {"demodulated-grid"} ELSE {}
    [] e.op = "estimate" ->
         (IF LET m == Mask(s) IN \E w \in 1..Len(e.h) : \E k \in 1..s.n : m[w][k] = "R" /\ e.est[w][k] # e.h[w][k] THEN {"estimate-at-reference"} ELSE {})
         \cup (IF Const(e.h) /\ e.est # e.h THEN {"estimate-of-constant"} ELSE {})
    [] OTHER -> {}
(* the announced numbers follow from the partition, and the words and silence cover the frame without overlap *)
InvBad(s) ==
  IF ~Fits(s) THEN {"does-not-fit"} ELSE
  (IF \E t \in {"D", "R"} : Len(Cellsof(s, t)) # NumOf(s, t) THEN {"counts"} ELSE {})
  \cup (LET W == Words(s) B == WordStarts(s) IN
        (IF Len(B) # Len(W) \/ \E w \in 1..Len(W) : B[w] + WordSamples(s, W[w]) > (IF w < Len(W) THEN B[w + 1] ELSE Samples(s)) \/ B[w] < PilotSamples(s) THEN {"overlap"} ELSE {})
        \cup (IF Samples(s) # PilotSamples(s) + Sum([w \in 1..Len(W) |-> WordSamples(s, W[w])]) + Sum([i \in 1..Len(s.secs) |-> IF s.secs[i].k = "guard" THEN SecSamples(s, s.secs[i]) ELSE 0]) THEN {"samples"} ELSE {}))
StepBad(s, t) == IF Len(s.res) # Len(t.res) THEN {"resources"} ELSE {}
(* model: two resources of two subcarriers *)
El(t, r) == [t |-> t, r |-> r]
R1(px) == [reps |-> 1, px |-> px, num |-> 1, den |-> 2, els |-> <<El("D", 1), El("R", 1)>>]
R2 == [reps |-> 2, px |-> "none", num |-> 1, den |-> 2, els |-> <<El("D", 1)>>]
R3 == [reps |-> 1, px |-> "cyclic", num |-> 1, den |-> 4, els |-> <<El("N", 1), El("D", 2)>>]
Sy(r, p) == [k |-> "symbols", reps |-> r, pat |-> p, off |-> 0]
G(g) == [k |-> "guard", reps |-> 1, g |-> g]
Structures == {<<Sy(1, <<1>>)>>, <<Sy(2, <<1, 2>>), G(3), Sy(1, <<2>>)>>, <<G(1), Sy(1, <<2, 2, 1>>)>>}
Pilots == {[k |-> "none"], [k |-> "default"], [k |-> "custom", v |-> <<3, 5>>]}
Pil == <<[n |-> 4, order |-> 4, v |-> <<0, 0, 0, 0>>], [n |-> 6, order |-> 4, v |-> <<0, 0, 0, 0, 0, 0>>], [n |-> 4, order |-> 16, v |-> <<0, 0, 0, 0>>], [n |-> 6, order |-> 16, v |-> <<0, 0, 0, 0, 0, 0>>]>>
InitStates == {Init0([kind |-> "ofdm", os |-> 1, n |-> 4, dc |-> FALSE, order |-> 4, refs |-> <<-1, -2, -3>>, pil |-> Pil, pilot |-> [k |-> "none"], res |-> <<R1("cyclic"), R2>>, secs |-> <<Sy(1, <<1>>)>>])}
Bounded(s) == s.edits <= MaxEdits
Ops(s) ==
  LET D == [i \in 1..NumOf(s, "D") |-> 10 + i] IN
  {[op |-> "place", d |-> D, exc |-> ""], [op |-> "place", d |-> D \o <<1>>, exc |-> "rejected"], [op |-> "pick", exc |-> ""], [op |-> "blank", exc |-> ""], [op |-> "demodulate", exc |-> ""], [op |-> "load", exc |-> ""]}
  \cup {[op |-> "spread", w |-> w, exc |-> ""] : w \in 1..Len(Words(s))}
  \cup (IF s.edits >= MaxEdits THEN {} ELSE
     {[op |-> "resource", i |-> 1, r |-> r, exc |-> ""] : r \in {R1("cyclic"), R1("zero"), R1("none"), R3}}
     \cup {[op |-> "structure", q |-> q, exc |-> ""] : q \in Structures} \cup {[op |-> "pilot", p |-> p, exc |-> ""] : p \in Pilots}
     \cup {[op |-> "order", v |-> v, exc |-> ""] : v \in {4, 16}} \cup {[op |-> "subcarriers", v |-> v, exc |-> ""] : v \in {4, 6}}
     \cup {[op |-> "resource", i |-> 1, r |-> [R2 EXCEPT !.reps = 0], exc |-> "rejected"]})
====
