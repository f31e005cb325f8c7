---- MODULE Store ----
(* C15: serialization of object graphs. c.heap describes the program's objects: scalar payload v, optional references a and b
   (0: none) and an ordered list of references q to objects of smaller index. A file holds c.camps campaigns; a writing session
   stores named scalars, arrays, objects and object sequences into one campaign, a reading session restores them by name.
   Objects written in one session share one domain (root objects get domains of their own): per domain, every object is
   restored exactly once, and objects of different domains are never confused.
   Restored objects are numbered in order of discovery within a reading session; s.map[id] = <<domain, object>>. *)
EXTENDS Naturals, Integers, Sequences, FiniteSets, TLC
CONSTANTS MaxWrites, MaxSessions
Nd(v, a, b, q) == [v |-> v, a |-> a, b |-> b, q |-> q]
McHeap == <<Nd("p", 0, 0, <<>>), Nd("q", 1, 1, <<>>), Nd("r", 2, 0, <<1, 2>>)>>
Range(q) == {q[i] : i \in 1..Len(q)}
Below(h, X) == LET RECURSIVE G(_)  G(Y) == LET W == Y \cup UNION {({h[o].a, h[o].b} \cup Range(h[o].q)) \ {0} : o \in Y} IN IF W = Y THEN Y ELSE G(W) IN G(X)

Init0(c) == [heap |-> c.heap, ent |-> [k \in 1..c.camps |-> {}], made |-> {}, mode |-> "no", c |-> 0, dom |-> 0, cur |-> 0, map |-> <<>>, n |-> 0, w |-> 0]
InitStates == {Init0([heap |-> McHeap, camps |-> 2])}
Scalars == {"int", "float", "complex", "str", "range"}
Ent(s, n) == {x \in s.ent[s.c] : x.n = n}
The(s, n) == CHOOSE x \in Ent(s, n) : TRUE
Put(s, x) == [s EXCEPT !.ent[s.c] = {y \in @ : y.n # x.n} \cup {x}, !.w = @ + 1]
(* domains of the elements of a written list: the session's, or fresh ones for roots *)
Doms(s, l, root) == [i \in 1..Len(l) |-> <<IF root THEN s.dom + i ELSE s.cur, l[i]>>]
Spend(s, k, root) == IF root THEN [s EXCEPT !.dom = @ + k] ELSE s
Old(s, n) == IF Ent(s, n) = {} THEN <<>> ELSE The(s, n).o
(* replacing a sequence is only specified while nothing outside of it refers to what it held *)
Owned(s, q) == UNION {{q[i][1]} \X Below(s.heap, {q[i][2]}) : i \in 1..Len(q)}
Safe(s, n) == \A x \in s.ent[s.c] : x.n = n \/ Owned(s, x.o) \cap Owned(s, Old(s, n)) = {}
Post(s, e) ==
  IF e.exc # "" THEN s ELSE
  CASE e.op = "open" -> [s EXCEPT !.mode = "w", !.c = e.c, !.made = @ \cup {e.c}, !.dom = @ + 1, !.cur = s.dom + 1, !.n = @ + 1]
    [] e.op = "ropen" -> [s EXCEPT !.mode = "r", !.c = e.c, !.map = <<>>, !.n = @ + 1]
    [] e.op = "close" -> [s EXCEPT !.mode = "no", !.c = 0, !.cur = 0, !.map = <<>>]
    [] e.op = "wval" -> IF e.v = "none" THEN s ELSE Put(s, [n |-> e.n, k |-> e.k, v |-> e.v, o |-> <<>>])
    [] e.op = "warr" -> IF Ent(s, e.n) # {} THEN s ELSE Put(s, [n |-> e.n, k |-> "arr", v |-> e.v, o |-> <<>>])
    [] e.op = "wobj" -> IF Ent(s, e.n) # {} THEN s ELSE Spend(Put(s, [n |-> e.n, k |-> "obj", v |-> "", o |-> Doms(s, <<e.o>>, e.root)]), 1, e.root)
    [] e.op = "wseq" -> Spend(Put(s, [n |-> e.n, k |-> "seq", v |-> "", o |-> (IF e.append THEN Old(s, e.n) ELSE <<>>) \o Doms(s, e.l, e.root)]), Len(e.l), e.root)
    [] e.op \in {"robj", "rseq"} -> [s EXCEPT !.map = @ \o [i \in 1..Len(e.new) |-> <<e.new[i].dom, e.new[i].orig>>]]
    [] OTHER -> s
Min(a, b) == IF a < b THEN a ELSE b
Cut(q, a, b) == SubSeq(q, a + 1, IF b < 0 THEN Len(q) ELSE Min(b, Len(q)))
Expect(s, e) ==
  CASE e.op = "ropen" -> e.c = 1 \/ e.c \in s.made
    [] e.op = "wobj" -> e.o > 0
    [] e.op = "rval" -> IF Ent(s, e.n) = {} THEN e.dflt # "" ELSE The(s, e.n).k = e.k
    [] e.op = "rarr" -> Ent(s, e.n) # {} \/ e.dflt # ""
    [] e.op = "robj" -> IF Ent(s, e.n) = {} THEN e.dflt # "" ELSE e.want # "other"
    [] e.op = "rseq" -> Ent(s, e.n) # {} \/ e.stop < 0
    [] OTHER -> TRUE
(* e.new lists the objects met for the first time in this session: their payload and the numbers of their references *)
Fit(s, e, keys) ==
  LET M == s.map \o [i \in 1..Len(e.new) |-> <<e.new[i].dom, e.new[i].orig>>]
      ref(d, id, o) == IF o = 0 THEN id = 0 ELSE id \in 1..Len(M) /\ M[id] = <<d, o>> IN
  (IF \E i, j \in 1..Len(M) : i # j /\ M[i] = M[j] THEN {"shared-object-duplicated"} ELSE {})
  \cup (IF Len(e.ids) # Len(keys) THEN {"length-differs"} ELSE IF \E i \in 1..Len(keys) : ~(e.ids[i] \in 1..Len(M) /\ M[e.ids[i]] = keys[i]) THEN {"other-object-restored"} ELSE {})
  \cup (IF \E i \in 1..Len(e.new) : LET x == e.new[i] h == s.heap[x.orig] IN
        x.v # h.v \/ ~ref(x.dom, x.a, h.a) \/ ~ref(x.dom, x.b, h.b) \/ Len(x.q) # Len(h.q) \/ \E j \in 1..Len(x.q) : ~ref(x.dom, x.q[j], h.q[j])
        THEN {"object-contents-differ"} ELSE {})
Bad(s, e) ==
  IF e.exc # "" /\ Expect(s, e) THEN {"unexpected-exception"}
  ELSE IF e.exc = "" /\ ~Expect(s, e) THEN {"missing-or-mistyped-accepted"}
  ELSE IF e.exc # "" THEN {}
  ELSE CASE e.op = "rval" -> IF e.got # (IF Ent(s, e.n) = {} THEN e.dflt ELSE The(s, e.n).v) THEN {"value-differs"} ELSE {}
    [] e.op = "rarr" -> (IF e.got # (IF Ent(s, e.n) = {} THEN e.dflt ELSE The(s, e.n).v) THEN {"array-differs"} ELSE {})
         \cup (IF Ent(s, e.n) # {} /\ e.dt # e.gdt THEN {"array-type-differs"} ELSE {})
    [] e.op = "robj" -> IF Ent(s, e.n) = {} THEN (IF e.got # e.dflt THEN {"default-differs"} ELSE {}) ELSE Fit(s, e, Old(s, e.n))
    [] e.op = "rseq" -> Fit(s, e, Cut(Old(s, e.n), e.start, e.stop))
    [] e.op = "rlen" -> IF e.len # Len(Old(s, e.n)) THEN {"sequence-length-differs"} ELSE {}
    [] e.op = "hdf" -> Fit([s EXCEPT !.map = <<>>], e, <<<<0, e.o>>>>)
    [] OTHER -> {}
(* design: written campaigns only change through sessions on them; domains are never reused; a sequence only grows unless replaced *)
InvBad(s) == IF \E k \in 1..Len(s.ent) : (k # 1 /\ s.ent[k] # {} /\ k \notin s.made) \/ \E x, y \in s.ent[k] : x # y /\ x.n = y.n THEN {"file"}
  ELSE IF \E k \in 1..Len(s.ent) : \E x \in s.ent[k] : \E i \in 1..Len(x.o) : x.o[i][1] > s.dom THEN {"domain"} ELSE {}
StepBad(s, t) == (IF \E k \in 1..Len(s.ent) : k # s.c /\ s.ent[k] # t.ent[k] THEN {"other-campaign-altered"} ELSE {})
  \cup (IF s.mode = "r" /\ s.ent # t.ent THEN {"read-writes"} ELSE {})
  \cup (IF s.c # 0 /\ \E x \in s.ent[s.c] : x.k \in {"obj", "arr"} /\ x \notin t.ent[s.c] THEN {"object-altered"} ELSE {})
Bounded(s) == s.w <= MaxWrites /\ s.n <= MaxSessions
Small(s) == {<<>>} \cup {<<o>> : o \in 1..Len(s.heap)} \cup {<<1, 2>>, <<3, 1>>, <<2, 2>>}
Ops(s) ==
  CASE s.mode = "no" -> {[op |-> x, c |-> k, exc |-> IF x = "open" \/ k = 1 \/ k \in s.made THEN "" ELSE "rejected"] : x \in {"open", "ropen"}, k \in 1..Len(s.ent)}
    [] s.mode = "w" -> {[op |-> "close", exc |-> ""]}
         \cup {[op |-> "wobj", n |-> n, o |-> o, root |-> r, exc |-> ""] : n \in {m \in {"x", "y"} : Ent(s, m) = {}}, o \in 1..Len(s.heap), r \in BOOLEAN}
         \cup {[op |-> "wseq", n |-> "s", l |-> l, append |-> a, root |-> r, exc |-> ""] : l \in Small(s), a \in (IF Safe(s, "s") THEN BOOLEAN ELSE {TRUE}), r \in BOOLEAN}
         \cup {[op |-> "wval", n |-> "i", k |-> "int", v |-> v, exc |-> ""] : v \in {"1", "2"}}
    [] OTHER -> {[op |-> "close", exc |-> ""]}
====
