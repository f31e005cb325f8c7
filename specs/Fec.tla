---- MODULE Fec ----
(* C20: forward error correction chains. c.pool describes encoders: rep(b, k repetitions), int(b, k interleaved sections),
   crc(b, k check bits), scr (keystream key). The chain is kept sorted by data block size. Bits are 0, 1 or 2 (not specified:
   padding and check bits, which are drawn at random). Scramblers own one position per direction. *)
EXTENDS Naturals, Integers, Sequences, FiniteSets, TLC
CONSTANTS MaxLen, MaxPos, MaxEnc
Code(d) == IF d.kind = "rep" THEN d.b * d.k ELSE IF d.kind = "crc" THEN d.b + d.k ELSE d.b
Init0(c) == [pool |-> c.pool, chain |-> <<>>, pad |-> TRUE, trunc |-> TRUE, last |-> <<>>]
D(s, i) == [s.pool[s.chain[i].p] EXCEPT !.k = s.chain[i].k]
RECURSIVE Active(_, _)
Active(s, i) == IF i > Len(s.chain) THEN <<>> ELSE IF s.chain[i].on THEN <<i>> \o Active(s, i + 1) ELSE Active(s, i + 1)
RECURSIVE BitBlock(_, _, _)
BitBlock(s, q, i) == IF q = <<>> THEN 1 ELSE IF i = 1 THEN D(s, q[1]).b ELSE BitBlock(s, q, i - 1) * (D(s, q[i]).b \div Code(D(s, q[i - 1])))
B(s) == LET q == Active(s, 1) IN BitBlock(s, q, Len(q))
C(s) == LET q == Active(s, 1) IN IF q = <<>> THEN 1 ELSE Code(D(s, q[Len(q)]))
Supported(s) == \A i, j \in 1..Len(s.chain) : i < j => D(s, j).b % Code(D(s, i)) = 0
Ins(q, x, s) == LET n == Cardinality({i \in 1..Len(q) : s.pool[q[i].p].b <= s.pool[x.p].b}) IN SubSeq(q, 1, n) \o <<x>> \o SubSeq(q, n + 1, Len(q))
Xor(a, b) == IF a = 2 \/ b = 2 THEN 2 ELSE (a + b) % 2
RECURSIVE Cat(_)
Cat(q) == IF q = <<>> THEN <<>> ELSE Head(q) \o Cat(Tail(q))
Key(d, n) == d.key[(n % Len(d.key)) + 1]
Fill(n, v) == [i \in 1..n |-> v]
(* one block through one encoder, forth and back *)
Enc1(d, x) == CASE d.kind = "rep" -> [i \in 1..(d.b * d.k) |-> x[((i - 1) % d.b) + 1]]
                [] d.kind = "int" -> [i \in 1..d.b |-> x[((i - 1) % d.k) * (d.b \div d.k) + ((i - 1) \div d.k) + 1]]
                [] d.kind = "crc" -> x \o Fill(d.k, 2)
Ones(d, y, i) == Cardinality({r \in 0..(d.k - 1) : y[r * d.b + i] = 1})
Dec1(d, y) == CASE d.kind = "rep" -> [i \in 1..d.b |-> IF 2 * Ones(d, y, i) > d.k THEN 1 ELSE 0]
                [] d.kind = "int" -> [i \in 1..d.b |-> y[((i - 1) % (d.b \div d.k)) * d.k + ((i - 1) \div (d.b \div d.k)) + 1]]
                [] d.kind = "crc" -> SubSeq(y, 1, d.b)
Stage(d, x, pos, n, enc) == IF d.kind = "scr" THEN [i \in 1..Len(x) |-> Xor(x[i], Key(d, pos + i - 1))]
  ELSE Cat([j \in 1..(Len(x) \div n) |-> IF enc THEN Enc1(d, SubSeq(x, (j - 1) * n + 1, j * n)) ELSE Dec1(d, SubSeq(x, (j - 1) * n + 1, j * n))])
(* the whole chain: result and chain with advanced scrambler positions *)
RECURSIVE EncAll(_, _, _, _)
EncAll(s, q, i, x) == IF i > Len(q) THEN [x |-> x, chain |-> s.chain]
  ELSE LET d == D(s, q[i]) IN EncAll([s EXCEPT !.chain[q[i]].tx = @ + Len(x)], q, i + 1, Stage(d, x, s.chain[q[i]].tx, d.b, TRUE))
RECURSIVE DecAll(_, _, _, _)
DecAll(s, q, i, y) == IF i < 1 THEN [x |-> y, chain |-> s.chain]
  ELSE LET d == D(s, q[i]) IN DecAll([s EXCEPT !.chain[q[i]].rx = @ + Len(y)], q, i - 1, Stage(d, y, s.chain[q[i]].rx, Code(d), FALSE))
Padded(s, x) == IF Len(x) % B(s) = 0 THEN x ELSE x \o Fill(B(s) - (Len(x) % B(s)), 2)
Encode(s, x) == EncAll(s, Active(s, 1), 1, Padded(s, x))
Usable(s, y) == SubSeq(y, 1, (Len(y) \div C(s)) * C(s))
Decode(s, y) == LET q == Active(s, 1) IN DecAll(s, q, Len(q), Usable(s, y))
EncodeFails(s, x, n) == LET m == (Len(Padded(s, x)) \div B(s)) * C(s) IN
  \/ ~s.pad /\ (Len(x) % B(s) # 0 \/ (n > 0 /\ m < n))
  \/ n > 0 /\ (m > n \/ n - m >= C(s))
DecodeFails(s, y, n) == LET full == (Len(y) \div C(s)) * B(s) IN n >= 0 /\ (n > full \/ (~s.trunc /\ n # full))
Stateful(s) == \E i \in 1..Len(s.chain) : s.chain[i].on /\ s.pool[s.chain[i].p].kind = "scr"
Post(s, e) ==
  IF e.exc # "" THEN s ELSE
  CASE e.op = "add" -> [s EXCEPT !.chain = Ins(@, [p |-> e.p, k |-> s.pool[e.p].k, on |-> TRUE, tx |-> 0, rx |-> 0], s), !.last = <<>>]
    [] e.op = "enable" -> [s EXCEPT !.chain[e.i].on = e.v, !.last = <<>>]
    [] e.op = "reps" -> [s EXCEPT !.chain[e.i].k = e.v, !.last = <<>>]
    [] e.op = "flags" -> [s EXCEPT !.pad = e.pad, !.trunc = e.trunc]
    [] e.op = "load" -> [s EXCEPT !.chain = [i \in 1..Len(@) |-> [@[i] EXCEPT !.tx = 0, !.rx = 0]], !.last = <<>>]
    [] e.op = "encode" -> [s EXCEPT !.chain = Encode(s, e.x).chain, !.last = <<e.x, e.y, s.chain>>]
    [] e.op = "decode" -> [s EXCEPT !.chain = Decode(s, e.y).chain, !.last = <<>>]
    [] OTHER -> s
Match(a, b) == Len(a) = Len(b) /\ \A i \in 1..Len(a) : a[i] = 2 \/ a[i] = b[i]
Prefix(a, n) == SubSeq(a, 1, IF n < Len(a) THEN n ELSE Len(a))
Bad(s, e) ==
  LET fails == CASE e.op = "encode" -> EncodeFails(s, e.x, e.n) [] e.op = "decode" -> DecodeFails(s, e.y, e.n)
                 [] e.op = "reps" -> e.v < 1 \/ e.v % 2 = 0 [] OTHER -> FALSE IN
  IF fails THEN (IF e.exc = "" THEN {"accepted"} ELSE {})
  ELSE IF e.exc # "" THEN {"unexpected-exception"} ELSE
  CASE e.op = "encode" -> LET y == Encode(s, e.x).x \o Fill(IF e.n > 0 THEN e.n ELSE 0, 2)
                              m == Len(Encode(s, e.x).x) k == IF e.n > 0 THEN e.n ELSE m IN
         (IF Len(e.y) # k THEN {"code-length"} ELSE IF ~Match(SubSeq(y, 1, k), e.y) THEN {"code-differs"} ELSE {})
         \cup (IF e.intact # "yes" THEN {"input-altered"} ELSE {})
    [] e.op = "decode" -> LET x == Decode(s, e.y).x IN
         (IF Len(e.x) # (IF e.n >= 0 THEN e.n ELSE Len(x)) THEN {"data-length"} ELSE IF ~Match(SubSeq(x, 1, Len(e.x)), e.x) THEN {"data-differs"} ELSE {})
         \cup (IF e.intact # "yes" THEN {"input-altered"} ELSE {})
    [] e.op = "read" -> (IF e.bits # B(s) THEN {"data-block-size"} ELSE {}) \cup (IF e.code # C(s) THEN {"code-block-size"} ELSE {})
         \cup (IF e.rate # B(s) THEN {"rate"} ELSE {}) \cup (IF e.req # (e.n \div C(s)) * B(s) THEN {"required-bits"} ELSE {})
         \cup (IF e.chain # [i \in 1..Len(s.chain) |-> [b |-> D(s, i).b, c |-> Code(D(s, i)), on |-> s.chain[i].on]] THEN {"chain-differs"} ELSE {})
         \cup (IF e.pad # s.pad \/ e.trunc # s.trunc THEN {"flags-differ"} ELSE {})
    [] e.op = "keystream" -> (* 802.11a: x^7 + x^4 + 1 *)
         LET k == s.pool[e.p].key at(i) == IF i < 1 THEN e.seed[1 - i] ELSE k[i] IN
         IF \A i \in 1..Len(k) : k[i] = (at(i - 4) + at(i - 7)) % 2 THEN {} ELSE {"keystream-differs"}
    [] OTHER -> {}
Flip(y, i) == [y EXCEPT ![i] = 1 - @]
Outer(s) == LET q == Active(s, 1) IN IF q = <<>> THEN "none" ELSE IF D(s, q[Len(q)]).k > 1 THEN D(s, q[Len(q)]).kind ELSE "none"
(* whatever was encoded is decoded again, from the same scrambler position, whatever the padding and check bits were; an outermost
   repetition corrects any single flipped bit *)
Back(s, y) == Decode([s EXCEPT !.chain = [i \in 1..Len(@) |-> [@[i] EXCEPT !.rx = s.last[3][i].tx]]], y).x
InvBad(s) ==
  (IF ~Supported(s) THEN {"unsupported-chain"} ELSE {})
  \cup (IF s.last # <<>> /\ Prefix(Back(s, s.last[2]), Len(s.last[1])) # s.last[1] THEN {"not-decodable"} ELSE {})
  \cup (IF s.last # <<>> /\ Outer(s) = "rep" /\ Len(s.last[2]) <= 12 /\ \E i \in 1..Len(s.last[2]) : Prefix(Back(s, Flip(s.last[2], i)), Len(s.last[1])) # s.last[1] THEN {"flip-not-corrected"} ELSE {})
  \cup (IF C(s) < B(s) THEN {"code-shorter-than-data"} ELSE {})
StepBad(s, t) == (IF Len(s.chain) = Len(t.chain) /\ Len(s.chain) > 0 /\ (\E i \in 1..Len(s.chain) : s.chain[i].tx # t.chain[i].tx) /\ (\E i \in 1..Len(s.chain) : s.chain[i].rx < t.chain[i].rx) THEN {"both-directions-advanced"} ELSE {})
Key0 == <<1, 0, 1, 1, 0>>
InitStates == {Init0([pool |-> q]) : q \in {
  <<[kind |-> "scr", b |-> 1, k |-> 0, key |-> Key0], [kind |-> "rep", b |-> 1, k |-> 3, key |-> <<>>], [kind |-> "int", b |-> 6, k |-> 2, key |-> <<>>]>>,
  <<[kind |-> "scr", b |-> 1, k |-> 0, key |-> Key0], [kind |-> "crc", b |-> 2, k |-> 1, key |-> <<>>], [kind |-> "rep", b |-> 3, k |-> 3, key |-> <<>>]>>}}
RECURSIVE Sum(_, _)
Sum(q, i) == IF i = 0 THEN 0 ELSE q[i].tx + q[i].rx + Sum(q, i - 1)
Bounded(s) == Len(s.chain) <= MaxEnc /\ Sum(s.chain, Len(s.chain)) <= MaxPos
Put(y, v) == [i \in 1..Len(y) |-> IF y[i] = 2 THEN v ELSE y[i]]
Words(n) == UNION {[1..k -> {0, 1}] : k \in 0..n}
Ops(s) ==
  {[op |-> "add", p |-> p, exc |-> ""] : p \in {q \in 1..Len(s.pool) : (\A i \in 1..Len(s.chain) : s.chain[i].p # q) /\ Supported(Post(s, [op |-> "add", p |-> q, exc |-> ""]))}}
  \cup {[op |-> "enable", i |-> i, v |-> ~s.chain[i].on, exc |-> ""] : i \in 1..Len(s.chain)}
  \cup {[op |-> "flags", pad |-> ~s.pad, trunc |-> s.trunc, exc |-> ""], [op |-> "flags", pad |-> s.pad, trunc |-> ~s.trunc, exc |-> ""], [op |-> "load", exc |-> ""]}
  \cup (IF s.chain = <<>> THEN {} ELSE
     {[op |-> "encode", x |-> x, n |-> 0, y |-> IF EncodeFails(s, x, 0) THEN <<>> ELSE Put(Encode(s, x).x, v), exc |-> IF EncodeFails(s, x, 0) THEN "rejected" ELSE ""] : x \in Words(MaxLen), v \in {0, 1}}
     \cup (IF s.last = <<>> THEN {} ELSE {[op |-> "decode", y |-> s.last[2], n |-> n, exc |-> IF DecodeFails(s, s.last[2], n) THEN "rejected" ELSE ""] : n \in {-1, Len(s.last[1])}}))
====
