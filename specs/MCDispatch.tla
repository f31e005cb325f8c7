---- MODULE MCDispatch ----
(* Exhaustive model of Dispatch: every history over the small constants of InitStates/Ops. Generated by tools/gen_wrappers.py *)
EXTENDS Dispatch, Json, IOUtils, TLCExt
VARIABLE s
Emit == IOEnv.VEMIT = "1"
MCInit == s \in InitStates
MCNext == \E e \in Ops(s) :
            /\ s' = Post(s, e)
            /\ Bounded(s')
            /\ IF Emit /\ TLCFP(s') = TLCFP(s') THEN PrintT(<<"T", ToJson(s), ToJson(e), ToJson(s')>>) ELSE TRUE
MCSpec == MCInit /\ [][MCNext]_s
MCInv == InvBad(s) = {}
MCStep == [][StepBad(s, s') = {}]_s
====
