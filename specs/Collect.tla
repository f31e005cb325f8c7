---- MODULE Collect ----
(* C02: collection of computed Monte Carlo samples, seen from outside.
   A worker w works on one batch at a time.  A sample is computed (by one evaluator), merged into the
   results of that evaluator, and finally returned.  Samples of a batch in which a stage failed are
   optional: the code may keep or drop them, everything else has to be returned exactly once.
   s.n        requested samples per section       s.k number of sections    s.m number of evaluators
   s.sec      id |-> <<evaluator, section>>       computed samples
   s.cur      worker |-> ids of its current batch
   s.must     ids of batches completed without an error
   s.merged   ids merged so far
   s.fails    number of failed batches            s.stops sections stopped early
   s.over     the simulation returned                                                         *)
EXTENDS Naturals, Integers, Sequences, FiniteSets, TLC
CONSTANTS MaxWorkers, MaxIds

Init0(c) == [n |-> c.n, k |-> c.k, m |-> c.m, w |-> c.w, sec |-> <<>>, cur |-> [i \in 1..c.w |-> {}],
             must |-> {}, merged |-> {}, fails |-> 0, stops |-> {}, over |-> FALSE]
InitStates == {Init0([n |-> 1, k |-> k, m |-> 1, w |-> w]) : k \in 1..2, w \in 1..MaxWorkers}

Computed(s) == DOMAIN s.sec
(* a worker that asks for its next batch has completed the current one *)
NextBatch(s, w) == [s EXCEPT !.must = @ \cup s.cur[w], !.cur[w] = {}]

Post(s, e) ==
  CASE e.op = "batch"   -> NextBatch(s, e.w)
    [] e.op = "compute" -> [s EXCEPT !.sec = (e.id :> <<e.ev, e.sec>>) @@ @, !.cur[e.w] = @ \cup {e.id}]
    [] e.op = "fail"    -> [s EXCEPT !.cur[e.w] = {}, !.fails = @ + 1]
    [] e.op = "merge"   -> [s EXCEPT !.merged = @ \cup {e.id}]
    [] e.op = "stop"    -> [s EXCEPT !.stops = @ \cup {e.sec}]
    [] e.op = "return"  -> [s EXCEPT !.over = (e.exc = "")]
    [] e.op = "hang"    -> s

(* what the returned results contain *)
Returned(e) == {e.res[i][1] : i \in 1..Len(e.res)}
ReturnBad(s, e) ==
  (IF Cardinality(Returned(e)) # Len(e.res) THEN {"sample-counted-twice"} ELSE {})
  \cup (IF \E i \in 1..Len(e.res) : e.res[i][1] \notin Computed(s) THEN {"sample-never-computed"} ELSE {})
  \cup (IF \E i \in 1..Len(e.res) : e.res[i][1] \in Computed(s) /\ s.sec[e.res[i][1]] # <<e.res[i][2], e.res[i][3]>>
        THEN {"sample-under-wrong-section"} ELSE {})
  \cup (IF \E x \in s.must \cup UNION {s.cur[w] : w \in 1..s.w} : x \notin Returned(e) THEN {"sample-lost"} ELSE {})
  \cup (IF s.fails = 0 /\ \E x \in 1..s.k, v \in 1..s.m : x \notin s.stops /\
             Cardinality({i \in 1..Len(e.res) : e.res[i][2] = v /\ e.res[i][3] = x}) # s.n
        THEN {"wrong-number-of-samples"} ELSE {})

Bad(s, e) ==
  CASE e.op = "batch" -> {}
    [] e.op = "compute" -> IF e.id \in Computed(s) THEN {"harness-duplicate-id"} ELSE IF s.over THEN {"computed-after-return"} ELSE {}
    [] e.op = "fail" -> {}
    [] e.op = "merge" -> (IF e.id \notin Computed(s) THEN {"merged-sample-never-computed"}
                          ELSE IF e.id \in s.merged THEN {"merged-twice"}
                          ELSE IF s.sec[e.id] # <<e.ev, e.sec>> THEN {"merged-under-wrong-section"} ELSE {})
                         \cup (IF s.over THEN {"merged-after-return"} ELSE {})
    [] e.op = "stop" -> {}
    [] e.op = "hang" -> {"never-terminates"}
    [] e.op = "return" -> IF e.exc # "" THEN (IF e.exc = "caught" THEN {"unexpected-exception"} ELSE {}) ELSE ReturnBad(s, e)

(* ---- exhaustive model: everything an implementation of the contract may do *)
SeqOf(S) == LET RECURSIVE F(_) F(T) == IF T = {} THEN <<>> ELSE LET x == CHOOSE y \in T : TRUE IN <<x>> \o F(T \ {x}) IN F(S)
Ops(s) ==
  IF s.over THEN {}
  ELSE {[op |-> "batch", w |-> w] : w \in {w \in 1..s.w : s.cur[w] # {}}}
  \cup {[op |-> "compute", w |-> w, id |-> Cardinality(Computed(s)) + 1, ev |-> 1, sec |-> x] :
          w \in 1..s.w, x \in {x \in 1..s.k : Cardinality({i \in Computed(s) : s.sec[i][2] = x}) < s.n /\ x \notin s.stops}}
  \cup {[op |-> "fail", w |-> w] : w \in {w \in 1..s.w : s.cur[w] # {}}}
  \cup {[op |-> "merge", id |-> x, ev |-> 1, sec |-> s.sec[x][2]] : x \in s.must \ s.merged}
  \cup {[op |-> "stop", sec |-> s.sec[x][2]] : x \in s.merged}
  \cup (IF (\A w \in 1..s.w : s.cur[w] = {}) /\ s.must \subseteq s.merged
          /\ (\A x \in 1..s.k : x \in s.stops \/ Cardinality({i \in Computed(s) : s.sec[i][2] = x}) >= s.n)
        THEN {[op |-> "return", exc |-> "", res |-> SeqOf({<<x, 1, s.sec[x][2]>> : x \in s.merged})]} ELSE {})
Bounded(s) == Cardinality(Computed(s)) <= MaxIds

InvBad(s) ==
  (IF ~(s.merged \subseteq Computed(s)) THEN {"merged-sample-never-computed"} ELSE {})
  \cup (IF s.over /\ ~(s.must \subseteq s.merged) THEN {"returned-with-samples-missing"} ELSE {})
  \cup (IF s.over /\ s.fails = 0 /\ \E x \in 1..s.k, v \in 1..s.m : x \notin s.stops /\ Cardinality({i \in s.merged : s.sec[i] = <<v, x>>}) # s.n
        THEN {"wrong-number-of-samples"} ELSE {})
StepBad(s, t) ==
  (IF ~(s.merged \subseteq t.merged) THEN {"merged-sample-forgotten"} ELSE {})
  \cup (IF s.over /\ t.merged # s.merged THEN {"merged-after-return"} ELSE {})
====
