------------------------------ MODULE AlignTrace ------------------------------
(* Verdict over recorded runs of the alignment solvers and of the methods    *)
(* that use them.                                                            *)
EXTENDS Align, TLC, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLE l
IsPerm(p, n) == Len(p) = n /\ {p[i] : i \in 1..Len(p)} = 1..n
AllPerm(ps, nb, n) == Len(ps) = nb /\ \A b \in 1..nb : IsPerm(ps[b], n)
CorrOk(e) == CorrOutcome(e.M, e.perm)
ScoreOk(e) == LET S == ScoreOutcomes(e.M, e.g, e.l) IN Cardinality(S) > Cap \/ e.perm \in S
SharedCase(e) == e.kind \in {"scramble", "aligned"}
DistinctRows(rows) == \A s, r \in 1..Len(rows) : s # r => rows[s] # rows[r]
Lined(e) == \A b \in 1..Len(e.M) : App(e.M[b], e.perm[b]) = App(e.M[1], e.perm[1])
SolveClauses(e) ==
    LET n == Len(e.M[1]) nb == Len(e.M) IN
    IF ~AllPerm(e.perm, nb, n) THEN {"result-is-not-a-reordering-of-the-rows"}
    ELSE (IF \A c \in 1..Len(e.comp) : e.comp[c] = e.perm THEN {} ELSE {"companion-permuted-differently"})
         \cup (IF Len(e.comp) = e.ncomp THEN {} ELSE {"companions-returned"})
         \cup (IF e.kept = 1 THEN {} ELSE {"overwrite-semantics"})
         \cup (IF e.fn = "corr" THEN (IF CorrOk(e) THEN {} ELSE {"not-the-greedy-correlation-solution"})
               ELSE (IF ScoreOk(e) THEN {} ELSE {"not-the-score-maximizer"}))
         \cup (IF e.fn = "corr" /\ SharedCase(e) /\ DistinctRows(e.M[1]) /\ ~Lined(e) THEN {"shared-patterns-not-aligned"} ELSE {})
         \cup (IF e.kind = "aligned" /\ DistinctRows(e.M[1]) /\ e.stays = 1 /\ \E b \in 1..nb : e.perm[b] # Id(n)
               THEN {"aligned-input-moved"} ELSE {})
(* a method reorders every per-source quantity of a bin as the solver says   *)
MethodClauses(e) ==
    IF ~AllPerm(e.perm, e.nb, e.n) THEN {"solver-on-method-state"}
    ELSE (IF \A c \in 1..Len(e.comp) : e.comp[c] = e.perm THEN {} ELSE {"method-state-permuted-differently"})
         \cup (IF Len(e.comp) = e.ncomp THEN {} ELSE {"method-state-missing"})
         \cup (IF e.kept = 1 THEN {} ELSE {"loss-history-changed-by-alignment"})
RejectClauses(e) == IF e.raised = 1 THEN {} ELSE {"mismatched-companion-accepted"}
Clauses(e) == IF e.ev = "exc" THEN {"raised"} ELSE IF e.ev = "solve" THEN SolveClauses(e)
              ELSE IF e.ev = "reject" THEN RejectClauses(e) ELSE MethodClauses(e)
TInit == l = 1 /\ M = <<>> /\ rest = {} /\ crit = <<>> /\ perm = <<>>
TNext == \/ /\ l <= Len(Trace)
            /\ LET e == Trace[l] IN \A c \in Clauses(e) : PrintT("@@BAD " \o ToJson([i |-> l, clause |-> c]))
            /\ l' = l + 1 /\ UNCHANGED vars
         \/ /\ l = Len(Trace) + 1 /\ PrintT("@@DONE " \o ToString(Len(Trace))) /\ l' = l + 1 /\ UNCHANGED vars
TSpec == TInit /\ [][TNext]_<<vars, l>>
=============================================================================
