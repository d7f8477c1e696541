---------------------------- MODULE SeparationTrace ----------------------------
(* Verdict over runs started at, near, and away from the separated state.        *)
EXTENDS Separation, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLE l
(* residuals in 1e-9, leakage and shares of power in 1e-6; an explicit gradient step may amplify rounding *)
Tol(e) == IF e.rule \in {"grad", "natural"} THEN 100000 ELSE 1000
Lost(e) == \E b \in 1..Len(e.own) : ~IsPerm(e.own[b], e.n)
Moved(e) == \E b \in 1..Len(e.own) : e.own[b] # e.perm
Clauses(e) ==
    CASE e.ev = "exc" -> {"raised"}
      [] e.finite = 0 -> {"not-finite"}
      [] e.ev = "sep" -> IF ~Keeps(e) THEN {} ELSE
            (IF e.leak > Tol(e) THEN {"separated-sources-mixed-again"} ELSE {})
            \cup (IF Lost(e) THEN {"source-lost"} ELSE {})
            \cup (IF Moved(e) /\ ~Lost(e) /\ e.rule \notin Exchanging THEN {"sources-exchanged"} ELSE {})
            \cup (IF e.rest > Tol(e) THEN {"output-is-not-made-of-sources"} ELSE {})
            \cup (IF e.restored = 1 /\ e.image > Tol(e) /\ ~Lost(e) THEN {"not-the-source-image"} ELSE {})
      [] e.ev = "mask" -> (IF e.hit < 850000 THEN {"points-given-to-other-sources"} ELSE {})
            \cup (IF e.image > 100000 THEN {"not-the-source-image"} ELSE {})
      [] e.ev = "model" -> IF e.image > 350000 THEN {"not-the-source-image"} ELSE {}
      [] e.ev = "near" -> IF Attracted(e) /\ e.after > e.before \div 2 THEN {"separation-not-approached"} ELSE {}
      [] e.ev = "cold" -> IF e.share < 900000 THEN {"not-separated"} ELSE {}
TInit == l = 1 /\ base = 0 /\ design = 0 /\ own0 = 0 /\ own = 0 /\ scale = 0 /\ row = 0 /\ at = 0 /\ acc = 0 /\ cross = 0 /\ sweep = 0 /\ mixed = 0
TNext == \/ /\ l <= Len(Trace)
            /\ LET e == Trace[l] IN \A k \in Clauses(e) : PrintT("@@BAD " \o ToJson([i |-> l, clause |-> k]))
            /\ l' = l + 1 /\ UNCHANGED svars
         \/ /\ l = Len(Trace) + 1 /\ PrintT("@@DONE " \o ToString(Len(Trace))) /\ l' = l + 1 /\ UNCHANGED svars
TSpec == TInit /\ [][TNext]_<<svars, l>>
================================================================================
