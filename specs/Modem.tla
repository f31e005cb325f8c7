---- MODULE Modem ----
(* C21: modem links and communication evaluators. c describes the frame: st streams, nds data symbols per stream, bps bits per symbol,
   bb/cb data and code block sizes of the coder chain, fs samples per frame, src the source's bits (<<>>: not prescribed).
   tx and rx are the reports last announced to the evaluators: frames [b bits, bs block size, y symbols, d duration in samples]. *)
EXTENDS Naturals, Integers, Sequences, FiniteSets, TLC
CONSTANTS MaxFrames, MaxPos
None == [has |-> FALSE, f |-> <<>>]
Init0(c) == [c |-> c, pos |-> 0, tx |-> None, rx |-> None, air |-> None]
CodeBits(c) == c.st * c.nds * c.bps
DataBits(c) == (CodeBits(c) \div c.cb) * c.bb
Frames(d) == IF d <= 0 THEN 1 ELSE d \div 2
Strip(f) == [i \in 1..Len(f) |-> [b |-> f[i].b, bs |-> f[i].bs, y |-> f[i].y, d |-> f[i].d]]
Rep(f) == [has |-> TRUE, f |-> Strip(f)]
Post(s, e) ==
  IF e.exc # "" THEN s ELSE
  CASE e.op = "transmit" -> [s EXCEPT !.pos = @ + Frames(e.d) * DataBits(s.c), !.air = Rep(e.f), !.tx = IF e.notify THEN Rep(e.f) ELSE @]
    [] e.op = "receive" -> [s EXCEPT !.rx = IF e.notify THEN Rep(e.f) ELSE @]
    [] e.op = "tx" -> [s EXCEPT !.tx = Rep(e.f)]
    [] e.op = "rx" -> [s EXCEPT !.rx = Rep(e.f)]
    [] OTHER -> s
Abs(n) == IF n < 0 THEN -n ELSE n
Max(a, b) == IF a > b THEN a ELSE b
Min(a, b) == IF a < b THEN a ELSE b
RECURSIVE Bits(_)
Bits(f) == IF f = <<>> THEN <<>> ELSE Head(f).b \o Bits(Tail(f))
RECURSIVE Syms(_)
Syms(f) == IF f = <<>> THEN <<>> ELSE Head(f).y \o Syms(Tail(f))
At(q, i) == IF i <= Len(q) THEN q[i] ELSE 0
BitErrors(s) == LET x == Bits(s.tx.f) y == Bits(s.rx.f) IN [i \in 1..Max(Len(x), Len(y)) |-> IF At(x, i) # At(y, i) THEN 1 ELSE 0]
FrameErrors(s) == LET x == s.tx.f y == s.rx.f IN [i \in 1..Max(Len(x), Len(y)) |-> IF i > Len(x) \/ i > Len(y) THEN 1 ELSE IF x[i].b # y[i].b THEN 1 ELSE 0]
Blocks(a) == Len(a.b) \div a.bs
Block(a, j) == SubSeq(a.b, (j - 1) * a.bs + 1, j * a.bs)
RECURSIVE BlockList(_, _, _)
BlockList(x, y, i) == IF i > Len(x) /\ i > Len(y) THEN <<>> ELSE
  (IF i > Len(x) THEN [j \in 1..Blocks(y[i]) |-> 1] ELSE IF i > Len(y) THEN [j \in 1..Blocks(x[i]) |-> 1]
   ELSE [j \in 1..Blocks(x[i]) |-> IF Block(x[i], j) # Block(y[i], j) THEN 1 ELSE 0]) \o BlockList(x, y, i + 1)
Total(q) == Cardinality({i \in 1..Len(q) : q[i] = 1})
(* blocks are comparable if both sides agree on the frame layout, and whole blocks fill the frames *)
Blocky(s) == (\A i \in 1..Len(s.tx.f) : Len(s.tx.f[i].b) % s.tx.f[i].bs = 0) /\ (\A i \in 1..Len(s.rx.f) : Len(s.rx.f[i].b) % s.rx.f[i].bs = 0)
  /\ \A i \in 1..Min(Len(s.tx.f), Len(s.rx.f)) : Len(s.tx.f[i].b) = Len(s.rx.f[i].b) /\ s.tx.f[i].bs = s.rx.f[i].bs
SumSq(s) == LET x == Syms(s.tx.f) y == Syms(s.rx.f) n == Min(Len(x), Len(y))
                S[i \in 0..n] == IF i = 0 THEN 0 ELSE S[i - 1] + (x[i][1] - y[i][1]) * (x[i][1] - y[i][1]) + (x[i][2] - y[i][2]) * (x[i][2] - y[i][2]) IN S[n]
Errors(s, k) == CASE k = "ber" -> BitErrors(s) [] k = "bler" -> BlockList(s.tx.f, s.rx.f, 1) [] OTHER -> FrameErrors(s)
Evals == {"ber", "bler", "fer", "drx", "evm"}
Bad(s, e) ==
  CASE e.op = "evaluate" ->
    IF ~s.tx.has \/ ~s.rx.has THEN (IF e.exc = "" THEN {"accepted"} ELSE {}) ELSE
    IF e.k = "bler" /\ ~Blocky(s) THEN {} ELSE
    IF e.exc # "" THEN {"unexpected-exception"} ELSE
    IF e.k = "drx" THEN
      (* e.v = rate * frames * duration of the first received frame = error-free frames * bits of the first received frame *)
      IF Len(s.rx.f) = 0 THEN (IF e.v # 0 THEN {"throughput-without-frames"} ELSE {})
      ELSE IF e.v # (Max(Len(s.tx.f), Len(s.rx.f)) - Total(FrameErrors(s))) * Len(s.rx.f[1].b) THEN {"throughput"} ELSE {}
    ELSE IF e.k = "evm" THEN (IF Min(Len(Syms(s.tx.f)), Len(Syms(s.rx.f))) > 0 /\ e.v # SumSq(s) THEN {"error-vector"} ELSE {})
    ELSE LET q == Errors(s, e.k) IN (IF e.q # q THEN {"error-indicators"} ELSE {}) \cup (IF Len(q) > 0 /\ e.v # Total(q) THEN {"error-rate"} ELSE {})
  [] OTHER ->
    IF e.exc # "" THEN {"unexpected-exception"} ELSE
    CASE e.op = "transmit" -> LET n == Frames(e.d) IN
         (IF Len(e.f) # n THEN {"number-of-frames"} ELSE {})
         \cup (IF \E i \in 1..Len(e.f) : Len(e.f[i].b) # DataBits(s.c) THEN {"number-of-bits"} ELSE {})
         \cup (IF \E i \in 1..Len(e.f) : e.f[i].enc # CodeBits(s.c) \/ e.f[i].sym # <<s.c.st, s.c.nds>> THEN {"code-or-symbols"} ELSE {})
         \cup (IF \E i \in 1..Len(e.f) : e.f[i].bs # s.c.bb THEN {"block-size"} ELSE {})
         \cup (IF e.samples # n * s.c.fs THEN {"number-of-samples"} ELSE {})
         \cup (IF s.c.src # <<>> /\ Bits(e.f) # SubSeq(s.c.src, s.pos + 1, s.pos + n * DataBits(s.c)) THEN {"source-bits"} ELSE {})
      [] e.op = "receive" ->
         (* e.cut of the transmitted frames were kept, behind e.lead leading ones that were not *)
         (IF Len(e.f) # e.cut THEN {"received-frames"} ELSE IF \E i \in 1..e.cut : e.f[i].b # s.air.f[i].b THEN {"bits-not-delivered"} ELSE {})
         \cup (IF \E i \in 1..Len(e.f) : e.f[i].at # (i - 1) * s.c.fs THEN {"timestamp"} ELSE {})
         \cup (IF \E i \in 1..Len(e.f) : e.f[i].bs # s.c.bb THEN {"block-size"} ELSE {})
      [] e.op = "read" -> (IF e.bpf # s.c.nds * s.c.bps THEN {"bits-per-frame"} ELSE {}) \cup (IF e.spf # s.c.fs THEN {"samples-per-frame"} ELSE {})
      [] OTHER -> {}
InvBad(s) ==
  (IF s.tx.has /\ s.rx.has /\ Blocky(s) /\ Len(s.tx.f) = Len(s.rx.f) /\
      (Total(BitErrors(s)) < Total(BlockList(s.tx.f, s.rx.f, 1)) \/ Total(BlockList(s.tx.f, s.rx.f, 1)) < Total(FrameErrors(s))) THEN {"error-order"} ELSE {})
  \cup (IF s.tx.has /\ s.rx.has /\ s.tx.f = s.rx.f /\ (Total(BitErrors(s)) # 0 \/ Total(FrameErrors(s)) # 0) THEN {"errors-without-difference"} ELSE {})
StepBad(s, t) == IF t.pos < s.pos THEN {"source-rewound"} ELSE {}
(* model: one stream, two one-bit symbols per frame *)
InitStates == {Init0([st |-> 1, nds |-> 2, bps |-> 1, bb |-> 1, cb |-> 1, fs |-> 1, src |-> <<1, 0, 0, 1, 1, 1, 0, 1>>])}
Bounded(s) == s.pos <= MaxPos /\ Len(s.tx.f) <= MaxFrames /\ Len(s.rx.f) <= MaxFrames
F(b) == [b |-> b, bs |-> 1, y |-> [i \in 1..Len(b) |-> <<b[i], 0>>], d |-> 1]
Sent(s, n) == [i \in 1..n |-> F(SubSeq(s.c.src, s.pos + 2 * i - 1, s.pos + 2 * i))]
Some == {<<>>, <<F(<<0, 1>>)>>, <<F(<<0, 0>>)>>, <<F(<<0, 1>>), F(<<1, 1>>)>>}
Ops(s) ==
  {[op |-> "transmit", d |-> d, notify |-> y, f |-> Sent(s, Frames(d)), exc |-> ""] : d \in {x \in {0, 3, 4} : s.pos + 2 * Frames(x) <= MaxPos}, y \in BOOLEAN}
  \cup (IF s.air.has THEN {[op |-> "receive", cut |-> k, notify |-> y, f |-> SubSeq(s.air.f, 1, k), exc |-> ""] : k \in 0..Len(s.air.f), y \in BOOLEAN} ELSE {})
  \cup {[op |-> k, f |-> f, exc |-> ""] : k \in {"tx", "rx"}, f \in Some}
====
