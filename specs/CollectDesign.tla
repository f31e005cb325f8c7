---- MODULE CollectDesign ----
(* C02, design level: the threads of a Monte Carlo simulation as hermespy runs them.
   Workers: run loop (fetch batch, compute it, append the result) and a fetch thread serving the
   collector's requests, both under the results lock.  Collector: run thread polling the workers and a
   fetch thread started by the driver, under one lock.  Driver: waits for the workers, then fetches.
   Race/Await switch off the locking and the awaiting (the behaviour before the repairs) to show that the
   model distinguishes them: with FALSE the properties below are violated.                              *)
EXTENDS Naturals, Sequences, FiniteSets, TLC
CONSTANTS Workers, NumBatches, Locked, Await

VARIABLES
  left,      \* batches not handed out
  wpc,       \* worker run thread: "ask" | "compute" | "append" | "done"
  job,       \* batch the worker computes
  results,   \* worker |-> finished batches not fetched yet
  copy,      \* worker |-> copy taken by an unlocked fetch thread ("none" = idle)
  req,       \* worker |-> "none" | "sent" | "ready": the collector's pending request
  reply,     \* worker |-> batches in the reply
  cpc,       \* collector run thread: "idle" | "poll" | "merge" | "requeue" | "off"
  csel,      \* worker whose reply is being merged
  fpc,       \* collector fetch thread: "idle" | "stop" | "pending" | "drain" | "end"
  fleft,     \* workers the fetch thread still has to visit
  active, lock,
  merged,    \* sequence of merged batches
  dpc        \* driver: "wait" | "fetch" | "returned"
vars == <<left, wpc, job, results, copy, req, reply, cpc, csel, fpc, fleft, active, lock, merged, dpc>>
None == 0
Init ==
  /\ left = NumBatches /\ wpc = [w \in Workers |-> "ask"] /\ job = [w \in Workers |-> None]
  /\ results = [w \in Workers |-> {}] /\ copy = [w \in Workers |-> "none"]
  /\ req = [w \in Workers |-> "none"] /\ reply = [w \in Workers |-> {}]
  /\ cpc = "idle" /\ csel = None /\ fpc = "idle" /\ fleft = {} /\ active = TRUE /\ lock = "free"
  /\ merged = <<>> /\ dpc = "wait"

(* ---- worker run thread *)
Ask(w) == /\ wpc[w] = "ask"
          /\ IF left > 0 THEN left' = left - 1 /\ job' = [job EXCEPT ![w] = left] /\ wpc' = [wpc EXCEPT ![w] = "append"]
             ELSE wpc' = [wpc EXCEPT ![w] = "done"] /\ UNCHANGED <<left, job>>
          /\ UNCHANGED <<results, copy, req, reply, cpc, csel, fpc, fleft, active, lock, merged, dpc>>
Append_(w) == /\ wpc[w] = "append"
             /\ results' = [results EXCEPT ![w] = @ \cup {job[w]}] /\ wpc' = [wpc EXCEPT ![w] = "ask"]
             /\ UNCHANGED <<left, job, copy, req, reply, cpc, csel, fpc, fleft, active, lock, merged, dpc>>
(* ---- worker fetch thread: copy and clear, atomic only under the lock *)
Serve(w) == /\ req[w] = "sent" /\ copy[w] = "none"
            /\ reply' = [reply EXCEPT ![w] = results[w]]
            /\ IF Locked THEN results' = [results EXCEPT ![w] = {}] /\ req' = [req EXCEPT ![w] = "ready"] /\ UNCHANGED copy
               ELSE copy' = [copy EXCEPT ![w] = "clear"] /\ UNCHANGED <<results, req>>
            /\ UNCHANGED <<left, wpc, job, cpc, csel, fpc, fleft, active, lock, merged, dpc>>
Clear(w) == /\ copy[w] = "clear"
            /\ results' = [results EXCEPT ![w] = {}] /\ copy' = [copy EXCEPT ![w] = "none"] /\ req' = [req EXCEPT ![w] = "ready"]
            /\ UNCHANGED <<left, wpc, job, reply, cpc, csel, fpc, fleft, active, lock, merged, dpc>>
SeqOf(S) == LET RECURSIVE F(_) F(T) == IF T = {} THEN <<>> ELSE LET x == CHOOSE y \in T : TRUE IN <<x>> \o F(T \ {x}) IN F(S)
(* ---- collector run thread *)
Start == /\ cpc = "idle" /\ (Locked => lock = "free")
         /\ IF Locked /\ ~active THEN cpc' = "off" /\ UNCHANGED <<req, lock, active>>
            ELSE cpc' = "poll" /\ req' = [w \in Workers |-> "sent"] /\ active' = (IF Locked THEN active ELSE TRUE) /\ lock' = (IF Locked THEN "run" ELSE lock)
         /\ UNCHANGED <<left, wpc, job, results, copy, reply, csel, fpc, fleft, merged, dpc>>
Poll == /\ cpc = "poll" /\ \E w \in Workers : req[w] = "ready" /\ csel' = w
        /\ cpc' = "merge"
        /\ UNCHANGED <<left, wpc, job, results, copy, req, reply, fpc, fleft, active, lock, merged, dpc>>
Merge == /\ cpc = "merge" /\ merged' = merged \o SeqOf(reply[csel]) /\ cpc' = "requeue"
         /\ UNCHANGED <<left, wpc, job, results, copy, req, reply, csel, fpc, fleft, active, lock, dpc>>
Requeue == /\ cpc = "requeue" /\ req' = [req EXCEPT ![csel] = "sent"] /\ cpc' = "again"
           /\ lock' = (IF Locked THEN "free" ELSE lock)
           /\ UNCHANGED <<left, wpc, job, results, copy, reply, csel, fpc, fleft, active, merged, dpc>>
Again == /\ cpc = "again" /\ (Locked => lock = "free")
         /\ IF active THEN cpc' = "poll" /\ lock' = (IF Locked THEN "run" ELSE lock) ELSE cpc' = "off" /\ UNCHANGED lock
         /\ UNCHANGED <<left, wpc, job, results, copy, req, reply, csel, fpc, fleft, active, merged, dpc>>
(* ---- collector fetch thread *)
FStop == /\ fpc = "stop" /\ active' = FALSE /\ fpc' = "enter"
         /\ UNCHANGED <<left, wpc, job, results, copy, req, reply, cpc, csel, fleft, lock, merged, dpc>>
FEnter == /\ fpc = "enter" /\ (Locked => lock = "free") /\ lock' = (IF Locked THEN "fetch" ELSE lock)
          /\ fpc' = "pending" /\ fleft' = {w \in Workers : req[w] # "none"}
          /\ UNCHANGED <<left, wpc, job, results, copy, req, reply, cpc, csel, active, merged, dpc>>
FPending == /\ fpc = "pending" /\ \E w \in fleft : req[w] = "ready" /\ merged' = merged \o SeqOf(reply[w])
                 /\ fleft' = fleft \ {w} /\ req' = (IF Locked THEN [req EXCEPT ![w] = "none"] ELSE req)
            /\ UNCHANGED <<left, wpc, job, results, copy, reply, cpc, csel, fpc, active, lock, dpc>>
FPendingEnd == /\ fpc = "pending" /\ fleft = {}
               /\ IF Locked THEN fpc' = "drain" /\ fleft' = Workers /\ req' = [w \in Workers |-> "sent"]
                  ELSE fpc' = "end" /\ UNCHANGED <<fleft, req>>
               /\ UNCHANGED <<left, wpc, job, results, copy, reply, cpc, csel, active, lock, merged, dpc>>
FDrain == /\ fpc = "drain" /\ \E w \in fleft : req[w] = "ready" /\ merged' = merged \o SeqOf(reply[w]) /\ fleft' = fleft \ {w} /\ req' = [req EXCEPT ![w] = "none"]
          /\ UNCHANGED <<left, wpc, job, results, copy, reply, cpc, csel, fpc, active, lock, dpc>>
FDrainEnd == /\ fpc = "drain" /\ fleft = {} /\ fpc' = "end" /\ lock' = "free"
             /\ UNCHANGED <<left, wpc, job, results, copy, req, reply, cpc, csel, fleft, active, merged, dpc>>
(* ---- driver *)
DWait == /\ dpc = "wait" /\ (IF Await THEN \A w \in Workers : wpc[w] = "done" ELSE left = 0)
         /\ dpc' = "fetch" /\ fpc' = "stop"
         /\ UNCHANGED <<left, wpc, job, results, copy, req, reply, cpc, csel, fleft, active, lock, merged>>
DReturn == /\ dpc = "fetch" /\ fpc = "end" /\ dpc' = "returned"
           /\ UNCHANGED <<left, wpc, job, results, copy, req, reply, cpc, csel, fpc, fleft, active, lock, merged>>
Next == \/ \E w \in Workers : Ask(w) \/ Append_(w) \/ Serve(w) \/ Clear(w)
        \/ Start \/ Poll \/ Merge \/ Requeue \/ Again
        \/ FStop \/ FEnter \/ FPending \/ FPendingEnd \/ FDrain \/ FDrainEnd \/ DWait \/ DReturn
Fairness == /\ \A w \in Workers : WF_vars(Ask(w)) /\ WF_vars(Append_(w)) /\ WF_vars(Serve(w)) /\ WF_vars(Clear(w))
            /\ WF_vars(Start) /\ WF_vars(Poll) /\ WF_vars(Merge) /\ WF_vars(Requeue) /\ SF_vars(Again)
            /\ WF_vars(FStop) /\ SF_vars(FEnter) /\ WF_vars(FPending) /\ WF_vars(FPendingEnd) /\ WF_vars(FDrain) /\ WF_vars(FDrainEnd) /\ WF_vars(DWait) /\ WF_vars(DReturn)
Spec == Init /\ [][Next]_vars /\ Fairness

MergedSet == {merged[i] : i \in 1..Len(merged)}
NoDuplicate == Cardinality(MergedSet) = Len(merged)
NothingInvented == MergedSet \subseteq 1..NumBatches
NothingLost == dpc = "returned" => MergedSet = 1..NumBatches
Terminates == <>(dpc = "returned")
CollectorStops == [](dpc = "returned" => <>(cpc = "off"))
====
