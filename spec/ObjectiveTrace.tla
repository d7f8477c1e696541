---------------------------- MODULE ObjectiveTrace ----------------------------
(* Verdict over recorded losses.                                             *)
(* run:   one evaluated state; ing are the measured ingredients and loss the  *)
(*        recorded value, all in units of max|ingredient| / 10^7              *)
(* exact: a state built from Gaussian integers whose objective is an integer *)
EXTENDS Objective, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLE l
AbsI(v) == IF v < 0 THEN -v ELSE v
Tol == 4
RECURSIVE WeightOf(_, _)
WeightOf(S, den) == IF S = {} THEN den ELSE LET t == CHOOSE u \in S : TRUE IN (den \div t[2][2]) * AbsI(t[2][1]) + WeightOf(S \ {t}, den)
Weight(f) == WeightOf(Terms(f), Den(f))
RECURSIVE ISumTo(_, _)
ISumTo(s, k) == IF k = 0 THEN 0 ELSE s[k] + ISumTo(s, k - 1)
ISum(s) == ISumTo(s, Len(s))
L1(z) == AbsI(z[1]) + AbsI(z[2])
RowL1(r) == ISum([j \in 1..Len(r) |-> L1(r[j])])
RowL2(r) == ISum([j \in 1..Len(r) |-> Abs2(r[j])])
(* frames * objective of an exact state: every |det| is one, every variance one *)
PerBin(e) == [b \in 1..Len(e.W) |-> MMul(e.W[b], e.X[b])]
Exact(e) == ISum([b \in 1..Len(e.W) |-> Bind(MMul(e.W[b], e.X[b]), LAMBDA Z :
                ISum([s \in 1..Len(Z) |-> IF e.fn = "l1" THEN RowL1(Z[s]) ELSE RowL2(Z[s])]))])
Clauses(e) ==
    CASE e.ev = "exc" -> {"raised"}
      [] e.ev = "exact" -> IF e.got = Exact(e) /\ e.resid <= 1000 THEN {} ELSE {"not-exactly-the-objective"}
      [] e.ev = "run" ->
           (IF e.float = 1 THEN {} ELSE {"not-a-python-float"})
           \cup (IF e.finite = 1 THEN {} ELSE {"not-finite"})
           \cup (IF e.recorded = 1 THEN {} ELSE {"not-recorded-once-per-evaluation"})
           \cup (IF e.finite = 1 /\ AbsI(Den(e) * e.loss - Value(e, e.ing)) > Tol * Weight(e) THEN {"not-the-documented-objective"} ELSE {})
           \cup (IF e.book <= 1000 THEN {} ELSE {"depends-on-the-bookkeeping"})
           \cup (IF e.again <= 1 THEN {} ELSE {"computing-the-loss-again-differs"})
TInit == l = 1 /\ W = <<>> /\ X = <<>> /\ Y = <<>> /\ kept = 0
TNext == \/ /\ l <= Len(Trace)
            /\ LET e == Trace[l] IN \A c \in Clauses(e) : PrintT("@@BAD " \o ToJson([i |-> l, clause |-> c]))
            /\ l' = l + 1 /\ UNCHANGED vars
         \/ /\ l = Len(Trace) + 1 /\ PrintT("@@DONE " \o ToString(Len(Trace))) /\ l' = l + 1 /\ UNCHANGED vars
TSpec == TInit /\ [][TNext]_<<vars, l>>
=============================================================================
