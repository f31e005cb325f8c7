---- MODULE GridDesign ----
(* C03, design level: the algorithm of a Monte Carlo worker for a batch of grid sections.  The worker
   reconfigures only the dimensions that changed and re-executes the stages from the first to the last
   affected one.  Checked for every batch up to MaxBatch sections and every declared impact.          *)
EXTENDS Naturals, Sequences, FiniteSets, TLC
CONSTANTS Stages, Points, MaxBatch, Sloppy   \* Sloppy: take the last instead of the smallest first impact
Dims == 1..2
None == 0
Impacts == {<<f, l>> \in ({None} \cup 1..Stages) \X ({None} \cup 1..Stages) : f = None \/ l = None \/ f <= l}
Sections == [Dims -> 1..Points]
VARIABLES imp, batch, i, vals, seen, pc, cur, stop
vars == <<imp, batch, i, vals, seen, pc, cur, stop>>
First(d) == IF imp[d][1] = None THEN 1 ELSE imp[d][1]
Last(d) == IF imp[d][2] = None THEN Stages ELSE imp[d][2]
Min(S) == CHOOSE x \in S : \A y \in S : x <= y
Max(S) == CHOOSE x \in S : \A y \in S : x >= y
Init == /\ imp \in [Dims -> Impacts] /\ batch \in UNION {[1..n -> Sections] : n \in 1..MaxBatch}
        /\ i = 1 /\ vals = [d \in Dims |-> 0] /\ seen = [st \in 1..Stages |-> [d \in Dims |-> 0]]
        /\ pc = "configure" /\ cur = 1 /\ stop = Stages
Configure ==
  /\ pc = "configure" /\ i <= Len(batch)
  /\ vals' = batch[i] /\ pc' = "run"
  /\ LET ch == IF i = 1 THEN {} ELSE {d \in Dims : batch[i][d] # batch[i - 1][d]} IN
     IF ch = {} THEN cur' = 1 /\ stop' = Stages
     ELSE cur' = (IF Sloppy THEN First(Max(ch)) ELSE Min({First(d) : d \in ch})) /\ stop' = Max({Last(d) : d \in ch})
  /\ UNCHANGED <<imp, batch, i, seen>>
Run == /\ pc = "run" /\ cur <= stop
       /\ seen' = [seen EXCEPT ![cur] = vals] /\ cur' = cur + 1 /\ UNCHANGED <<imp, batch, i, vals, pc, stop>>
Evaluate == /\ pc = "run" /\ cur > stop /\ i' = i + 1 /\ pc' = "configure" /\ UNCHANGED <<imp, batch, vals, seen, cur, stop>>
Next == Configure \/ Run \/ Evaluate
Spec == Init /\ [][Next]_vars
(* whenever a sample is evaluated every affected stage computed with the current parameters *)
Consistent == pc = "run" /\ cur > stop => \A d \in Dims : \A st \in First(d)..Last(d) : seen[st][d] = batch[i][d]
====
