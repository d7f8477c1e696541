------------------------------ MODULE UpdateTrace ------------------------------
(* Verdict over observed update steps; the rule decides what has to vanish.   *)
EXTENDS UpdateRules, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLE l
Clauses(e) ==
    CASE e.ev = "exc" -> {"raised"}
      [] e.ev = "step" -> IF e.regular = 1 THEN {e.rule \o ":" \o c : c \in RuleBad(e)} ELSE {}
TInit == /\ l = 1 /\ mode = "trace" /\ W = <<>> /\ U = <<>> /\ was = <<>> /\ k = 0
         /\ Y = <<>> /\ phi = <<>> /\ M = <<>>
TNext == \/ /\ l <= Len(Trace)
            /\ LET e == Trace[l] IN \A c \in Clauses(e) : PrintT("@@BAD " \o ToJson([i |-> l, clause |-> c]))
            /\ l' = l + 1 /\ UNCHANGED uvars
         \/ /\ l = Len(Trace) + 1 /\ PrintT("@@DONE " \o ToString(Len(Trace))) /\ l' = l + 1 /\ UNCHANGED uvars
TSpec == TInit /\ [][TNext]_<<uvars, l>>
================================================================================
