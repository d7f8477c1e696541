------------------------------ MODULE FramesTrace ------------------------------
(* Verdict over pairs of runs: on a recording and on the recording of a plan.    *)
EXTENDS Frames, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLE l
Clauses(e) ==
    CASE e.ev = "exc" -> {"raised"}
      [] e.ev = "fn" -> IF Kind(e.plan, e.t) \subseteq (IF e.silence = 1 THEN {"repeat", "silence"} ELSE {"repeat"}) /\ e.y > 1000
                        THEN {"function-result-depends-on-repetition-or-silence"} ELSE {}
      [] OTHER ->
         (IF e.finite = 1 THEN {} ELSE {"not-finite"})
         \cup (IF Silent(e.plan) = {} \/ e.zero = 0 THEN {} ELSE {"sound-where-the-mixture-is-silent"})
         \cup (IF Equal(e) /\ e.y > 1000 THEN {"separated-signals-differ"} ELSE {})
         \cup (IF Equal(e) /\ e.par > 1000 THEN {"parameters-differ"} ELSE {})
         \cup (IF LossEqual(e) /\ e.loss > 1000 THEN {"loss-differs"} ELSE {})
TInit == l = 1 /\ orig = 0 /\ plan = 0 /\ at = 0 /\ acc = 0 /\ pen = 0 /\ broken = 0
TNext == \/ /\ l <= Len(Trace)
            /\ LET e == Trace[l] IN \A k \in Clauses(e) : PrintT("@@BAD " \o ToJson([i |-> l, clause |-> k]))
            /\ l' = l + 1 /\ UNCHANGED fvars
         \/ /\ l = Len(Trace) + 1 /\ PrintT("@@DONE " \o ToString(Len(Trace))) /\ l' = l + 1 /\ UNCHANGED fvars
TSpec == TInit /\ [][TNext]_<<fvars, l>>
================================================================================
