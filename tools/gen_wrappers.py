#!/usr/bin/env python3
"""Generates the exhaustive-model and trace-validation wrappers of the specifications (committed)."""
import os, sys
D = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "specs")
MC = """---- MODULE MC{X} ----
(* Exhaustive model of {X}: every history over the small constants of InitStates/Ops. Generated by tools/gen_wrappers.py *)
EXTENDS {X}, Json, IOUtils, TLCExt
VARIABLE s
Emit == IOEnv.VEMIT = "1"
MCInit == s \\in InitStates
MCNext == \\E e \\in Ops(s) :
            /\\ s' = Post(s, e)
            /\\ Bounded(s')
            /\\ IF Emit /\\ TLCFP(s') = TLCFP(s') THEN PrintT(<<"T", ToJson(s), ToJson(e), ToJson(s')>>) ELSE TRUE
MCSpec == MCInit /\\ [][MCNext]_s
MCInv == InvBad(s) = {{}}
MCStep == [][StepBad(s, s') = {{}}]_s
====
"""
MCCFG = """SPECIFICATION MCSpec
INVARIANT MCInv
PROPERTY MCStep
CHECK_DEADLOCK FALSE
"""
TR = """---- MODULE Trace{X} ----
(* Validates recorded histories of the implementation against {X}; verdicts are total. Generated by tools/gen_wrappers.py *)
EXTENDS {X}, Json, IOUtils
Traces == JsonDeserialize(IOEnv.VTRACE)
VARIABLES s, tid, l, done
TInit == /\\ tid \\in 1..Len(Traces) /\\ l = 1 /\\ done = FALSE /\\ s = Init0(Traces[tid].c)
Judge(e) ==
  LET b == Bad(s, e) IN
  IF b # {{}} THEN b
  ELSE LET s2 == Post(s, e) IN InvBad(s2) \\cup StepBad(s, s2)
TNext ==
  /\\ ~done
  /\\ tid' = tid
  /\\ IF l > Len(Traces[tid].ev)
     THEN PrintT(<<"ACCEPT", tid>>) /\\ done' = TRUE /\\ UNCHANGED <<s, l>>
     ELSE LET e == Traces[tid].ev[l]
              v == Judge(e)
          IN IF v # {{}}
             THEN PrintT(<<"REJECT", tid, l, v, ToJson(s)>>) /\\ done' = TRUE /\\ UNCHANGED <<s, l>>
             ELSE s' = Post(s, e) /\\ l' = l + 1 /\\ done' = FALSE
TSpec == TInit /\\ [][TNext]_<<s, tid, l, done>>
====
"""
TRCFG = """SPECIFICATION TSpec
CHECK_DEADLOCK FALSE
"""
for X in sys.argv[1:]:
    for name, txt in ((f"MC{X}.tla", MC), (f"MC{X}.cfg", MCCFG), (f"Trace{X}.tla", TR), (f"Trace{X}.cfg", TRCFG)):
        with open(os.path.join(D, name), "w") as f: f.write(txt.replace("{X}", X).replace("{{", "{").replace("}}", "}"))
