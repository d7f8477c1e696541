------------------------------ MODULE SourceTrace ------------------------------
(* Verdict over recorded blocks and iterations.                                *)
(* block: one update called on its own; changed = parameters whose values      *)
(*        differ afterwards; resid = relative deviation from the closed form   *)
(*        (or from its stationarity condition), in 1e-9                        *)
(* once:  one iteration; dev = deviation from the blocks of the schedule, one   *)
(*        after the other                                                       *)
EXTENDS SourceModel, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLE l
Tol == 20000
ToSet(s) == {s[i] : i \in 1..Len(s)}
Follows(e) == e.did = Schedule(e.c)
Clauses(e) ==
    CASE e.ev = "exc" -> {"raised"}
      [] e.ev = "skip" -> {}
      [] e.ev = "block" ->
           (IF e.block \in Closed(e.c) /\ Valid(e.c) THEN {} ELSE {"no-such-block"})
           \cup (IF ToSet(e.changed) \subseteq Writes(e.c, e.block) THEN {} ELSE {"another-parameter-changed"})
           \cup (IF e.regular = 1 => e.resid <= Tol THEN {} ELSE {"not-the-minimizer:" \o e.block})
           \cup (IF e.regular = 1 => e.finite = 1 THEN {} ELSE {"not-finite"})
      [] e.ev = "once" ->
           (IF Follows(e) THEN {} ELSE {"no-such-schedule"})
           \cup (IF ToSet(e.changed) \subseteq Owned(e.c) THEN {} ELSE {"another-parameter-changed"})
           \cup (IF e.regular = 1 => e.dev <= Tol THEN {} ELSE {"iteration-is-not-its-blocks"})
TInit == l = 1 /\ cfg = 0 /\ pc = 0 /\ ver = 0 /\ iter = 0
TNext == \/ /\ l <= Len(Trace)
            /\ LET e == Trace[l] IN \A k \in Clauses(e) : PrintT("@@BAD " \o ToJson([i |-> l, clause |-> k]))
            /\ l' = l + 1 /\ UNCHANGED vars
         \/ /\ l = Len(Trace) + 1 /\ PrintT("@@DONE " \o ToString(Len(Trace))) /\ l' = l + 1 /\ UNCHANGED vars
TSpec == TInit /\ [][TNext]_<<vars, l>>
================================================================================
