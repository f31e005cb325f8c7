---- MODULE RF ----
(* C14: radio-frequency chains as block graphs. c.pool describes the blocks that may be added: number of input and output
   ports, digital role (dsp: "in" blocks receive the digital streams, "out" blocks deliver digital streams), the linear map m
   (m[output][input], Gaussian integers), or the kinds "mul" (mixers: first input times second or its conjugate) and "src"
   (oscillators); fm says what happens to the ports' carrier frequencies (-1: unspecified).
   State: references to added blocks in order, and the established connections <<from, port, to, port>> in order. *)
EXTENDS Naturals, Integers, Sequences, FiniteSets, TLC
CONSTANTS MaxRefs, MaxConns
Z == <<0, 0>>
O == <<1, 0>>
Blk(i, o, d, m) == [kind |-> "lin", ni |-> i, no |-> o, dsp |-> d, m |-> m, fm |-> "keep", fs |-> 0]
McPool == <<Blk(1, 1, "in", <<<<O>>>>), Blk(1, 2, "no", <<<<O>>, <<<<0, 1>>>>>>), Blk(2, 1, "no", <<<<O, <<2, 0>>>>>>), Blk(1, 1, "out", <<<<O>>>>)>>

Add(a, b) == <<a[1] + b[1], a[2] + b[2]>>
CM(a, b) == <<a[1] * b[1] - a[2] * b[2], a[1] * b[2] + a[2] * b[1]>>
Cj(a) == <<a[1], -a[2]>>
Range(q) == {q[i] : i \in 1..Len(q)}
Flat(q) == LET RECURSIVE F(_)  F(n) == IF n = 0 THEN <<>> ELSE F(n - 1) \o q[n] IN F(Len(q))
Asc(n, P(_)) == SelectSeq([i \in 1..n |-> i], P)

B(s, r) == s.pool[s.refs[r]]
Driver(s, r, p) == {k \in 1..Len(s.conns) : s.conns[k][3] = r /\ s.conns[k][4] = p}
OpenIn(s, r) == Asc(B(s, r).ni, LAMBDA p : Driver(s, r, p) = {})
OpenOut(s, r) == Asc(B(s, r).no, LAMBDA p : ~ \E k \in 1..Len(s.conns) : s.conns[k][1] = r /\ s.conns[k][2] = p)
Feeds(s, r) == {s.conns[k][1] : k \in {j \in 1..Len(s.conns) : s.conns[j][3] = r}}
(* blocks the outputs of R are computed from, R included *)
Back(s, R) == LET RECURSIVE G(_)  G(X) == LET Y == X \cup UNION {Feeds(s, r) : r \in X} IN IF Y = X THEN X ELSE G(Y) IN G(R)
Loop(s, r) == r \in Back(s, Feeds(s, r))

(* outputs and inputs of the whole chain *)
TxIn(s) == SelectSeq([r \in 1..Len(s.refs) |-> r], LAMBDA r : B(s, r).dsp = "in")
TxOut(s) == SelectSeq([r \in 1..Len(s.refs) |-> r], LAMBDA r : B(s, r).dsp # "out" /\ OpenOut(s, r) # <<>>)
RxIn(s) == SelectSeq([r \in 1..Len(s.refs) |-> r], LAMBDA r : B(s, r).dsp # "in" /\ OpenIn(s, r) # <<>>)
RxOut(s) == SelectSeq([r \in 1..Len(s.refs) |-> r], LAMBDA r : B(s, r).dsp = "out")
Pairs(s, R, Ports(_, _)) == Flat([i \in 1..Len(R) |-> LET q == Ports(s, R[i]) IN [p \in 1..Len(q) |-> <<R[i], q[p]>>]])
AllIn(s, r) == [p \in 1..B(s, r).ni |-> p]
AllOut(s, r) == [p \in 1..B(s, r).no |-> p]
Ins(s, tx) == IF tx THEN Pairs(s, TxIn(s), AllIn) ELSE Pairs(s, RxIn(s), OpenIn)
Outs(s, tx) == IF tx THEN Pairs(s, TxOut(s), OpenOut) ELSE Pairs(s, RxOut(s), AllOut)
OutBlocks(s, tx) == Range(IF tx THEN TxOut(s) ELSE RxOut(s))

(* propagation *)
Abs(z) == IF z < 0 THEN -z ELSE z
Same(q) == IF q = <<>> THEN 0 ELSE IF \E i \in 1..Len(q) : q[i] # q[1] THEN -1 ELSE q[1]
Lin(m, x, n) == [j \in 1..Len(m) |-> [k \in 1..n |-> LET RECURSIVE S(_)  S(i) == IF i = 0 THEN Z ELSE Add(S(i - 1), CM(m[j][i], x[i].v[k])) IN S(Len(x))]]
Apply(b, x, n, cf) ==
  LET f == [i \in 1..Len(x) |-> x[i].f]
      one(g) == IF g < 0 \/ b.fm = "any" THEN -1 ELSE CASE b.fm = "up" -> g + (IF b.fs > 0 THEN b.fs ELSE cf) [] b.fm = "down" -> Abs(g - (IF b.fs > 0 THEN b.fs ELSE cf)) [] b.fm = "x4" -> 4 * g [] OTHER -> g IN
  CASE b.kind = "src" -> <<[v |-> [k \in 1..n |-> b.m[1][1]], f |-> IF b.fs > 0 THEN b.fs ELSE cf]>>
    [] b.kind = "mul" -> <<[v |-> [k \in 1..n |-> CM(x[1].v[k], IF b.fm = "up" THEN x[2].v[k] ELSE Cj(x[2].v[k]))],
         f |-> IF f[1] < 0 \/ f[2] < 0 THEN -1 ELSE IF b.fm = "up" THEN f[1] + f[2] ELSE f[1] - f[2]]>>
    [] OTHER -> LET y == Lin(b.m, x, n) IN [j \in 1..b.no |-> [v |-> y[j],
         f |-> IF b.fm = "keep" /\ b.ni = b.no THEN one(f[j]) ELSE one(Same(f))]]
Silent(n) == [v |-> [k \in 1..n |-> Z], f |-> 0]
Find(q, x) == {i \in 1..Len(q) : q[i] = x}
Run(s, tx, x, n, cf) ==
  LET ins == Ins(s, tx)
      RECURSIVE Ev(_)
      Ev(r) == Apply(B(s, r), [p \in 1..B(s, r).ni |->
                 LET d == Driver(s, r, p) o == Find(ins, <<r, p>>) IN
                 IF d # {} THEN LET k == CHOOSE k \in d : TRUE IN Ev(s.conns[k][1])[s.conns[k][2]]
                 ELSE IF o # {} THEN x[CHOOSE i \in o : TRUE] ELSE Silent(n)], n, cf)
      outs == Outs(s, tx) IN [i \in 1..Len(outs) |-> Ev(outs[i][1])[outs[i][2]]]
Stuck(s, tx) == \E r \in Back(s, OutBlocks(s, tx)) : Loop(s, r)

Init0(c) == [pool |-> c.pool, refs |-> <<>>, conns |-> <<>>]
InitStates == {Init0([pool |-> McPool])}
New(e) == [k \in 1..Len(e.op1) |-> <<e.ro, e.op1[k], e.ri, e.ip[k]>>]
Post(s, e) ==
  IF e.exc # "" THEN s ELSE
  CASE e.op = "add" -> [s EXCEPT !.refs = @ \o [i \in 1..e.n |-> e.b]]
    [] e.op = "connect" -> [s EXCEPT !.conns = @ \o New(e)]
    [] OTHER -> s
(* whether a connection is admissible; closing a loop may be refused or taken (then what depends on it cannot be computed) *)
Fits(s, e) == /\ e.same = FALSE /\ Len(e.op1) = Len(e.ip)
  /\ Range(e.op1) \subseteq (1..B(s, e.ro).no) /\ Range(e.ip) \subseteq Range(OpenIn(s, e.ri))
  /\ \A i, j \in 1..Len(e.ip) : i # j => e.ip[i] # e.ip[j]
Closes(s, e) == e.ri = e.ro \/ e.ri \in Back(s, {e.ro})
Cf(e) == e.cf
Calls(s, R) == [b \in 1..Len(s.pool) |-> Cardinality({r \in R : s.refs[r] = b})]
View(s) == [oi |-> [r \in 1..Len(s.refs) |-> OpenIn(s, r)], oo |-> [r \in 1..Len(s.refs) |-> OpenOut(s, r)],
  cn |-> [r \in 1..Len(s.refs) |-> <<Cardinality({k \in 1..Len(s.conns) : s.conns[k][3] = r}), Cardinality({k \in 1..Len(s.conns) : s.conns[k][1] = r})>>],
  dig |-> <<Len(Pairs(s, TxIn(s), AllIn)), Len(Pairs(s, RxOut(s), AllOut))>>]
Seen(s, o) ==
  (IF o.oi # View(s).oi \/ o.oo # View(s).oo THEN {"open-ports-differ"} ELSE {})
  \cup (IF Range(o.links) # Range(s.conns) \/ Len(o.links) # Len(s.conns) \/ Range(o.back) # Range(s.conns) \/ Len(o.back) # Len(s.conns) THEN {"connections-differ"} ELSE {})
  \cup (IF o.cn # View(s).cn THEN {"connection-counts-differ"} ELSE {})
  \cup (IF o.dig # View(s).dig THEN {"digital-ports-differ"} ELSE {})
Bad(s, e) ==
  CASE e.op = "connect" ->
       (IF e.exc # "" /\ Fits(s, e) /\ ~Closes(s, e) THEN {"unexpected-exception"} ELSE {})
       \cup (IF e.exc = "" /\ ~Fits(s, e) THEN {"invalid-connection-accepted"} ELSE Seen(Post(s, e), e.obs))
    [] e.op \in {"add", "load"} -> IF e.exc # "" THEN {"unexpected-exception"} ELSE Seen(Post(s, e), e.obs)
    [] e.op \in {"transmit", "receive"} ->
       LET tx == e.op = "transmit" IN
       IF Stuck(s, tx) THEN (IF e.exc = "" THEN {"loop-evaluated"} ELSE {})
       \* mixing down to negative frequencies is refused
       ELSE IF e.exc # "" THEN (IF \E r \in Back(s, OutBlocks(s, tx)) : B(s, r).kind = "mul" /\ B(s, r).fm = "down" THEN {} ELSE {"unexpected-exception"})
       ELSE LET y == Run(s, tx, e.x, e.n, e.cf) IN
         (IF Len(e.y) # Len(y) THEN {"output-ports-differ"}
          ELSE (IF \E i \in 1..Len(y) : e.y[i].v # y[i].v THEN {"output-differs"} ELSE {})
            \cup (IF \E i \in 1..Len(y) : y[i].f >= 0 /\ e.y[i].f # y[i].f THEN {"carrier-differs"} ELSE {}))
         \cup (IF e.calls # Calls(s, Back(s, OutBlocks(s, tx))) THEN {"blocks-not-applied-exactly-once"} ELSE {})
         \cup (IF e.intact # "yes" THEN {"input-modified"} ELSE {})
    [] OTHER -> {}

(* design: every input port has at most one driver; open and connected ports partition the ports; a chain without loops
   delivers to its outputs exactly the sums over all paths from its inputs *)
Ps(s, tx) ==
  LET ins == Ins(s, tx) outs == Outs(s, tx) n == Len(ins)
      unit(i) == [j \in 1..n |-> [v |-> <<IF i = j THEN O ELSE Z>>, f |-> 0]]
      RECURSIVE Paths(_, _, _, _)
      \* sum over the paths from port p of block r (output) back to the chain input <<a, q>>
      Paths(r, p, a, q) == LET b == B(s, r)
         here == IF a = r /\ q <= b.ni THEN b.m[p][q] ELSE Z
         RECURSIVE S(_)
         S(k) == IF k = 0 THEN here ELSE Add(S(k - 1), IF s.conns[k][3] = r THEN CM(b.m[p][s.conns[k][4]], Paths(s.conns[k][1], s.conns[k][2], a, q)) ELSE Z) IN S(Len(s.conns)) IN
  \A i \in 1..n : \A j \in 1..Len(outs) : Run(s, tx, unit(i), 1, 0)[j].v[1] = Paths(outs[j][1], outs[j][2], ins[i][1], ins[i][2])
InvBad(s) ==
  IF \E r \in 1..Len(s.refs) : \E p \in 1..B(s, r).ni : Cardinality(Driver(s, r, p)) > 1 THEN {"two-drivers"}
  ELSE IF Len(s.refs) <= MaxRefs /\ (\A r \in 1..Len(s.refs) : B(s, r).kind = "lin") /\ \E tx \in BOOLEAN : ~Stuck(s, tx) /\ ~Ps(s, tx) THEN {"path-sum"}
  ELSE {}
StepBad(s, t) == IF SubSeq(t.conns, 1, Len(s.conns)) # s.conns \/ SubSeq(t.refs, 1, Len(s.refs)) # s.refs THEN {"established-connections-changed"} ELSE {}
Bounded(s) == Len(s.refs) <= MaxRefs /\ Len(s.conns) <= MaxConns
Ports(s, r, out) == IF out THEN (IF B(s, r).dsp = "out" THEN 0 ELSE B(s, r).no) ELSE IF B(s, r).dsp = "in" THEN 0 ELSE B(s, r).ni
Lists(n) == {<<p>> : p \in 1..n} \cup {<<p, q>> : p, q \in 1..n}
Ops(s) == LET R == 1..Len(s.refs)
     E(x, y) == [op |-> "connect", ro |-> x[1], op1 |-> x[2], ri |-> y[1], ip |-> y[2], same |-> FALSE, exc |-> ""]
     Os == UNION {{<<r, l>> : l \in Lists(Ports(s, r, TRUE))} : r \in R}
     Is == UNION {{<<r, l>> : l \in Lists(Ports(s, r, FALSE))} : r \in R}
     K == {E(x, y) : x \in Os, y \in Is} IN
  {[op |-> "add", b |-> b, n |-> n, exc |-> ""] : b \in 1..Len(s.pool), n \in 1..(IF s.refs = <<>> THEN 2 ELSE 1)}
  \cup {[e EXCEPT !.exc = IF Fits(s, e) THEN "" ELSE "rejected"] : e \in {k \in K : Len(k.op1) = Len(k.ip) \/ Len(s.conns) = 0}}
====
