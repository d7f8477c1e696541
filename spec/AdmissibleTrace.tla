---------------------------- MODULE AdmissibleTrace ----------------------------
(* Verdict over requests made of the real library.                                *)
EXTENDS Admissible, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLE l
Expect(e) == IF e.kind = "class" THEN Verdict(e.cls, e.req, e.n) ELSE FnVerdict(e)
Clauses(e) ==
    LET v == Expect(e) IN
    (IF v = "refuse" /\ e.outcome = "returned" THEN {"unsupported-request-computed"} ELSE {})
    \cup (IF v = "accept" /\ e.outcome = "refused" THEN {"supported-request-refused"} ELSE {})
    \cup (IF v = "accept" /\ e.outcome = "returned" /\ e.finite = 0 THEN {"result-not-finite"} ELSE {})
    \cup (IF e.kept = 0 THEN {"refused-call-changed-the-input"} ELSE {})
TInit == l = 1 /\ cls = 0 /\ req = 0 /\ iters = 0 /\ gate = 0 /\ status = 0
TNext == \/ /\ l <= Len(Trace)
            /\ LET e == Trace[l] IN \A k \in Clauses(e) : PrintT("@@BAD " \o ToJson([i |-> l, clause |-> k]))
            /\ l' = l + 1 /\ UNCHANGED avars
         \/ /\ l = Len(Trace) + 1 /\ PrintT("@@DONE " \o ToString(Len(Trace))) /\ l' = l + 1 /\ UNCHANGED avars
TSpec == TInit /\ [][TNext]_<<avars, l>>
================================================================================
