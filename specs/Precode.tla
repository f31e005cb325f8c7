---- MODULE Precode ----
(* C11: precoding chains. A chain is a sequence of stages drawn from a pool c.pool (kinds); transmit chains encode first to
   last towards the antennas, receive chains decode first to last towards the digital layer. Samples are blocks of Gaussian
   integers X[stream][block][symbol] = <<re, im>>. A receive chain holding the stages of a lossless transmit chain in mirrored
   order undoes it. *)
EXTENDS Naturals, Integers, Sequences, FiniteSets, TLC
CONSTANTS MaxChain
PoolKinds == <<"g", "rot", "dup", "rep">>

Add(a, b) == <<a[1] + b[1], a[2] + b[2]>>
Sub(a, b) == <<a[1] - b[1], a[2] - b[2]>>
CM(a, b) == <<a[1] * b[1] - a[2] * b[2], a[1] * b[2] + a[2] * b[1]>>
Cj(a) == <<a[1], -a[2]>>
Ng(a) == <<-a[1], -a[2]>>
Q(k) == ((k % 4) + 4) % 4
J(k) == <<<<1, 0>>, <<0, 1>>, <<-1, 0>>, <<0, -1>>>>[Q(k) + 1]
Sum(q) == LET RECURSIVE S(_)  S(n) == IF n = 0 THEN <<0, 0>> ELSE Add(S(n - 1), q[n]) IN S(Len(q))
Div(z, n) == IF z[1] % n = 0 /\ z[2] % n = 0 THEN <<z[1] \div n, z[2] \div n>> ELSE <<99999, 99999>>

NS(x) == Len(x)
NB(x) == IF x = <<>> THEN 0 ELSE Len(x[1])
NY(x) == IF NB(x) = 0 THEN 0 ELSE Len(x[1][1])
Make(n, b, y, F(_, _, _)) == [i \in 1..n |-> [j \in 1..b |-> [k \in 1..y |-> F(i, j, k)]]]

(* stream and block bookkeeping of the stages *)
TxIn(k, out) == CASE k = "dup" -> IF out % 2 = 0 THEN out \div 2 ELSE -1
                  [] k = "alam" -> IF out = 2 THEN 1 ELSE -1
                  [] k = "gan" -> IF out = 4 THEN 1 ELSE -1
                  [] k = "beam" -> 1
                  [] OTHER -> out
RxOut(k, in) == CASE k = "dup" -> IF in % 2 = 0 THEN in \div 2 ELSE -1
                  [] k \in {"mrc", "sc", "beam"} -> 1
                  [] OTHER -> in
RNum(k) == IF k = "gan" THEN 3 ELSE IF k = "alam" THEN 2 ELSE 1     \* symbols before coding
RDen(k) == CASE k = "gan" -> 4 [] k = "alam" -> 2 [] k = "rep" -> 2 [] OTHER -> 1   \* symbols after coding

Dft(x, sgn, norm) == LET N == NB(x) IN
  Make(NS(x), N, NY(x), LAMBDA i, j, k : Div(Sum([m \in 1..N |-> CM(x[i][m][k], J(sgn * (4 \div N) * (j - 1) * (m - 1)))]), norm))
Root(N) == IF N = 4 THEN 2 ELSE 1
(* transmit side of a stage *)
Enc(k, x, out) ==
  CASE k = "g" -> Make(NS(x), NB(x), NY(x), LAMBDA i, j, m : CM(x[i][j][m], J(i)))
    [] k = "rot" -> Make(NS(x), NB(x), NY(x), LAMBDA i, j, m : x[(i % NS(x)) + 1][j][m])
    [] k = "dup" -> Make(out, NB(x), NY(x), LAMBDA i, j, m : IF i % 2 = 1 THEN x[(i + 1) \div 2][j][m] ELSE CM(x[i \div 2][j][m], J(1)))
    [] k = "rep" -> Make(NS(x), 2 * NB(x), NY(x), LAMBDA i, j, m : IF j % 2 = 1 THEN x[i][(j + 1) \div 2][m] ELSE Ng(x[i][j \div 2][m]))
    [] k = "acc" -> Make(NS(x), NB(x), NY(x), LAMBDA i, j, m : Sum([b \in 1..j |-> x[i][b][m]]))
    [] k = "dftb" -> Dft(x, -1, 1)
    [] k = "dftf" -> Dft(x, -1, NB(x))
    [] k = "dfto" -> Dft(x, -1, Root(NB(x)))
    [] k = "alam" -> Make(2, NB(x), NY(x), LAMBDA i, j, m :
         IF i = 1 THEN x[1][j][m] ELSE IF j % 2 = 1 THEN Ng(Cj(x[1][j + 1][m])) ELSE Cj(x[1][j - 1][m]))
    [] k = "gan" -> Make(4, (NB(x) \div 3) * 4, NY(x), LAMBDA i, j, m :
         LET g == (j - 1) \div 4 t == (j - 1) % 4 a == x[1][3 * g + 1][m] b == x[1][3 * g + 2][m] c == x[1][3 * g + 3][m] o == <<0, 0>> IN
         <<<<a, o, b, Ng(c)>>, <<o, a, Cj(c), Cj(b)>>, <<Ng(Cj(b)), Ng(c), Cj(a), o>>, <<Cj(c), Ng(b), o, Cj(a)>>>>[i][t + 1])
    [] OTHER -> x
(* receive side of a stage *)
Dec(k, x, out) ==
  CASE k = "g" -> Make(NS(x), NB(x), NY(x), LAMBDA i, j, m : CM(x[i][j][m], J(-i)))
    [] k = "rot" -> Make(NS(x), NB(x), NY(x), LAMBDA i, j, m : x[((i + NS(x) - 2) % NS(x)) + 1][j][m])
    [] k = "dup" -> Make(out, NB(x), NY(x), LAMBDA i, j, m : x[2 * i - 1][j][m])
    [] k = "rep" -> Make(NS(x), NB(x) \div 2, NY(x), LAMBDA i, j, m : x[i][2 * j - 1][m])
    [] k = "acc" -> Make(NS(x), NB(x), NY(x), LAMBDA i, j, m : IF j = 1 THEN x[i][1][m] ELSE Sub(x[i][j][m], x[i][j - 1][m]))
    [] k = "dftb" -> Dft(x, 1, NB(x))
    [] k = "dftf" -> Dft(x, 1, 1)
    [] k = "dfto" -> Dft(x, 1, Root(NB(x)))
    [] OTHER -> x

Kinds(pool, ch) == [i \in 1..Len(ch) |-> pool[ch[i]]]
(* stream numbers in front of each transmit stage, requirement -1 anywhere rejects *)
TxNums(ks, out) == LET RECURSIVE N(_)  N(i) == IF i > Len(ks) THEN <<out>> ELSE LET r == N(i + 1) IN <<IF r[1] < 0 THEN -1 ELSE TxIn(ks[i], r[1])>> \o r IN N(1)
RxNums(ks, in) == LET RECURSIVE N(_)  N(i) == IF i = 0 THEN <<in>> ELSE LET r == N(i - 1) IN Append(r, IF r[i] < 0 THEN -1 ELSE RxOut(ks[i], r[i])) IN N(Len(ks))
Rejected(q) == \E i \in 1..Len(q) : q[i] < 0
TxCount(ks, n) == IF ks = <<>> THEN n ELSE IF n < 1 THEN -1 ELSE LET q == TxNums(ks, n) IN IF Rejected(q) THEN -1 ELSE q[1]
RxCount(ks, n) == IF ks = <<>> THEN n ELSE IF n < 1 THEN -1 ELSE LET q == RxNums(ks, n) IN IF Rejected(q) THEN -1 ELSE q[Len(q)]
TxRun(ks, x, n) == LET nums == TxNums(ks, n) RECURSIVE R(_)  R(i) == IF i = 0 THEN x ELSE Enc(ks[i], R(i - 1), nums[i + 1]) IN R(Len(ks))
RxRun(ks, x) == LET nums == RxNums(ks, NS(x)) RECURSIVE R(_)  R(i) == IF i = 0 THEN x ELSE Dec(ks[i], R(i - 1), nums[i + 1]) IN R(Len(ks))
Prod(ks, F(_)) == LET RECURSIVE P(_)  P(i) == IF i = 0 THEN 1 ELSE P(i - 1) * F(ks[i]) IN P(Len(ks))
Mirror(ks) == [i \in 1..Len(ks) |-> ks[Len(ks) + 1 - i]]

Init0(c) == [tx |-> c.tx, pool |-> c.pool, ch |-> <<>>, linked |-> {}]
InitStates == {Init0([tx |-> t, pool |-> PoolKinds]) : t \in BOOLEAN}
Ins(q, i, v) == SubSeq(q, 1, i - 1) \o <<v>> \o SubSeq(q, i, Len(q))
Del(q, i) == SubSeq(q, 1, i - 1) \o SubSeq(q, i + 1, Len(q))
Range(q) == {q[i] : i \in 1..Len(q)}
At(s, i) == IF i >= 0 THEN i + 1 ELSE Len(s.ch) + i + 1     \* python indexing
Valid(s, i) == At(s, i) >= 1 /\ At(s, i) <= Len(s.ch)

Post(s, e) ==
  IF e.exc # "" THEN s ELSE
  CASE e.op = "init" -> [s EXCEPT !.ch = e.list, !.linked = Range(e.list)]
    [] e.op = "set" -> LET q == IF e.i < 0 THEN Ins(s.ch, 1, e.k) ELSE IF e.i >= Len(s.ch) THEN Append(s.ch, e.k) ELSE [s.ch EXCEPT ![e.i + 1] = e.k] IN
         [s EXCEPT !.ch = q, !.linked = Range(q)]
    [] e.op = "pop" -> LET q == Del(s.ch, At(s, e.i)) IN [s EXCEPT !.ch = q, !.linked = Range(q)]
    [] OTHER -> s
Ks(s) == Kinds(s.pool, s.ch)
Data(x) == x # <<>>
Expect(s, e) ==
  CASE e.op = "set" -> e.i <= Len(s.ch)
    [] e.op = "pop" -> Valid(s, e.i)
    [] e.op = "get" -> Valid(s, e.i)
    [] e.op = "enc" -> TxCount(Ks(s), e.n) >= 0
    [] e.op = "wrong" -> s.ch = <<>> \/ TxCount(Ks(s), e.n) = NS(e.x)
    [] e.op = "dec" -> RxCount(Ks(s), NS(e.y)) >= 0
    [] OTHER -> TRUE
Counts(s, o) ==
  (IF o.list # s.ch \/ o.len # Len(s.ch) THEN {"chain-contents-differ"} ELSE {})
  \cup (IF {i \in 1..Len(s.pool) : o.att[i]} # s.linked THEN {"stage-attachment-differs"} ELSE {})
  \cup (IF \E n \in 1..Len(o.cnt) : o.cnt[n] # (IF s.tx THEN TxCount(Ks(s), n) ELSE RxCount(Ks(s), n)) THEN {"stream-count-differs"} ELSE {})
  \cup (IF o.rate # <<>> /\ o.rate[1] * Prod(Ks(s), RDen) # o.rate[2] * Prod(Ks(s), RNum) THEN {"rate-differs"} ELSE {})
  \cup (IF \E n \in 1..Len(o.bl) : o.bl[n] # (IF s.tx THEN (n * Prod(Ks(s), RDen)) \div Prod(Ks(s), RNum) ELSE (n * Prod(Ks(s), RNum)) \div Prod(Ks(s), RDen)) THEN {"block-count-differs"} ELSE {})
Norm(h, m) == LET RECURSIVE S(_)  S(n) == IF n = 0 THEN 0 ELSE S(n - 1) + h[m][n][1] * h[m][n][1] + h[m][n][2] * h[m][n][2] IN S(Len(h[m]))
Bad(s, e) ==
  IF e.exc # "" /\ Expect(s, e) THEN {"unexpected-exception"}
  ELSE IF e.exc = "" /\ ~Expect(s, e) THEN {"invalid-request-accepted"}
  ELSE (IF e.exc = "" /\ e.op \in {"init", "set", "pop"} THEN Counts(Post(s, e), e.obs) ELSE IF e.op \in {"init", "set", "pop"} THEN Counts(s, e.obs) ELSE {})
  \cup (IF e.exc # "" THEN {} ELSE
    CASE e.op \in {"pop", "get"} -> IF e.k # s.ch[At(s, e.i)] THEN {"wrong-stage-returned"} ELSE {}
      [] e.op = "enc" -> (IF e.intact # "yes" THEN {"input-modified"} ELSE {})
           \cup (IF NS(e.x) # TxCount(Ks(s), e.n) THEN {"stream-count-differs"} ELSE IF e.y # TxRun(Ks(s), e.x, e.n) THEN {"encoding-differs"} ELSE {})
      [] e.op = "dec" -> (IF e.intact # "yes" THEN {"input-modified"} ELSE {})
           \cup (IF e.x # RxRun(Ks(s), e.y) THEN {"decoding-differs"} ELSE {})
      (* both chains over a channel h[receive stream][transmit stream]: coding gains are undone per receive stream *)
      [] e.op = "link" -> LET R == Len(e.h) IN
           (IF e.tx # TxRun(e.pre \o e.stbc, e.x, Len(e.h[1])) THEN {"encoding-differs"} ELSE {})
           \cup (CASE e.rx = "sc" -> IF \E a \in 1..R : (\A b \in 1..R : Norm(e.h, b) <= Norm(e.h, a)) /\ e.y = <<[j \in 1..NB(e.tx) |-> [m \in 1..NY(e.tx) |-> CM(e.tx[1][j][m], e.h[a][1])]]>> THEN {} ELSE {"link-differs"}
                   [] e.rx = "mrc" -> IF e.y # e.x THEN {"link-differs"} ELSE {}
                   [] OTHER -> IF e.y # [r \in 1..R |-> e.x[1]] THEN {"link-differs"} ELSE {})
      (* conventional beamforming towards the local direction d: element n at pos[n] in the array's local frame, wavelength 4 *)
      [] e.op = "beam" ->
           LET dot(a, b) == a[1] * b[1] + a[2] * b[2] + a[3] * b[3]
               d == IF e.glob THEN [i \in 1..3 |-> dot(<<e.rot[1][i], e.rot[2][i], e.rot[3][i]>>, e.d)] ELSE e.d
               w(n) == J(-dot(e.pos[n], d)) N == Len(e.pos) IN
           (IF e.tx # [n \in 1..N |-> <<[m \in 1..NY(e.x) |-> CM(e.x[1][1][m], w(n))]>>] THEN {"transmit-beam-differs"} ELSE {})
           \cup (IF e.y # <<<<[m \in 1..NY(e.z) |-> Div(Sum([n \in 1..N |-> CM(e.z[n][1][m], w(n))]), N)]>>>> THEN {"receive-beam-differs"} ELSE {})
      [] OTHER -> {})

(* design: whatever the chain, what a mirrored receive chain decodes from an encoded signal is the original, and the
   reported stream numbers are those really produced *)
Lossless == {"g", "rot", "dup", "rep", "acc"}
Probe(n) == Make(n, 2, 1, LAMBDA i, j, k : <<8 * (3 * i + j), 8 * (i - 2 * j)>>)
InvBad(s) == IF Range(Ks(s)) \subseteq Lossless /\ (\E n \in 1..4 :
    LET m == TxCount(Ks(s), n) IN m >= 0 /\ (LET y == TxRun(Ks(s), Probe(m), n) IN NS(y) # n \/ RxRun(Mirror(Ks(s)), y) # Probe(m) \/ RxCount(Mirror(Ks(s)), n) # m))
  THEN {"mirrored-chain-does-not-undo"} ELSE IF s.linked # Range(s.ch) THEN {"attachment"} ELSE {}
StepBad(s, t) == IF Len(t.ch) - Len(s.ch) \in {-1, 0, 1} THEN {} ELSE IF s.ch = <<>> THEN {} ELSE {"length-jump"}
Bounded(s) == Len(s.ch) <= MaxChain
Ops(s) ==
  {[e EXCEPT !.exc = IF Expect(s, e) THEN "" ELSE "rejected"] : e \in
  [op : {"set"}, i : -1..(Len(s.ch) + 1), k : 1..Len(s.pool), exc : {""}]
  \cup [op : {"pop", "get"}, i : (-Len(s.ch) - 1)..Len(s.ch), k : {0}, exc : {""}]
  \cup [op : {"code"}, n : 1..4, exc : {""}]}
====
