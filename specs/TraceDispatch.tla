---- MODULE TraceDispatch ----
(* Validates recorded histories of the implementation against Dispatch; verdicts are total. Generated by tools/gen_wrappers.py *)
EXTENDS Dispatch, Json, IOUtils
Traces == JsonDeserialize(IOEnv.VTRACE)
VARIABLES s, tid, l, done
TInit == /\ tid \in 1..Len(Traces) /\ l = 1 /\ done = FALSE /\ s = Init0(Traces[tid].c)
Judge(e) ==
  LET b == Bad(s, e) IN
  IF b # {} THEN b
  ELSE LET s2 == Post(s, e) IN InvBad(s2) \cup StepBad(s, s2)
TNext ==
  /\ ~done
  /\ tid' = tid
  /\ IF l > Len(Traces[tid].ev)
     THEN PrintT(<<"ACCEPT", tid>>) /\ done' = TRUE /\ UNCHANGED <<s, l>>
     ELSE LET e == Traces[tid].ev[l]
              v == Judge(e)
          IN IF v # {}
             THEN PrintT(<<"REJECT", tid, l, v, ToJson(s)>>) /\ done' = TRUE /\ UNCHANGED <<s, l>>
             ELSE s' = Post(s, e) /\ l' = l + 1 /\ done' = FALSE
TSpec == TInit /\ [][TNext]_<<s, tid, l, done>>
====
