----------------------------- MODULE DescentTrace -----------------------------
(* Verdict over recorded losses: step = from one evaluation to the next,       *)
(* block = across one parameter update inside an iteration.  inc is the signed  *)
(* change in units of 1e-9 of the size of the objective.                        *)
EXTENDS Descent, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLE l
Clauses(e) ==
    CASE e.ev = "exc" -> IF Required(e) THEN {"raised"} ELSE {}
      [] e.ev = "step" -> IF Required(e) /\ e.inc > 1 THEN {"loss-increased"} ELSE {}
      [] e.ev = "block" -> IF Required(e) /\ ~Projected(e) /\ e.inc > 1 THEN {"loss-increased-by:" \o e.block} ELSE {}
      [] e.ev = "run" -> IF MM(e) /\ e.steps = 0 THEN {"nothing-observed"} ELSE {}
TInit == l = 1 /\ F = 0 /\ D = 0 /\ x = 0 /\ anchor = 0 /\ rec = <<>> /\ k = 0
TNext == \/ /\ l <= Len(Trace)
            /\ LET e == Trace[l] IN \A c \in Clauses(e) : PrintT("@@BAD " \o ToJson([i |-> l, clause |-> c]))
            /\ l' = l + 1 /\ UNCHANGED vars
         \/ /\ l = Len(Trace) + 1 /\ PrintT("@@DONE " \o ToString(Len(Trace))) /\ l' = l + 1 /\ UNCHANGED vars
TSpec == TInit /\ [][TNext]_<<vars, l>>
===============================================================================
