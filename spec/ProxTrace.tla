------------------------------ MODULE ProxTrace ------------------------------
(* Verdict over values the proximal operators returned: got is the value times *)
(* its exact denominator (the length of its group), rounded.                  *)
EXTENDS Prox, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLE l
Fine == 5000           \* 5e-9
IsLength(g, m) == m * m = Len2(g)
Common(e) ==
    (IF e.shape # e.want THEN {e.ev \o "-shape"} ELSE {}) \cup (IF e.touched = 1 THEN {e.ev \o "-input-touched"} ELSE {})
    \cup (IF e.dtype = 1 THEN {e.ev \o "-dtype"} ELSE {}) \cup (IF e.alone > Fine THEN {e.ev \o "-entries-interact"} ELSE {})
    \cup (IF e.off > Fine THEN {e.ev \o "-inexact"} ELSE {})
Clauses(e) ==
    CASE e.ev = "exc" -> {"raised"}
      [] e.ev = "l1" -> Common(e) \cup
            (IF \E k \in 1..Len(e.x) : ~IsLength(<<e.x[k]>>, e.m[k]) \/ <<e.got[k]>> # ShrinkTimes(<<e.x[k]>>, e.m[k], e.mu) THEN {"l1-value"} ELSE {})
      [] e.ev = "l21" -> Common(e) \cup
            (IF \E a \in 1..Len(e.x) : \E b \in 1..Len(e.x[1]) :
                    ~IsLength(e.x[a][b], e.m[a][b]) \/ e.got[a][b] # ShrinkTimes(e.x[a][b], e.m[a][b], e.mu) THEN {"l21-value"} ELSE {})
      [] e.ev = "log" -> Common(e) \cup
            (IF \E k \in 1..Len(e.p) : ~IsLogProx(e.got[k], LogArg(e.p[k], e.mu), e.mu) THEN {"log-value"} ELSE {})
      [] e.ev = "det" -> Common(e) \cup
            (IF \E b \in 1..Len(e.p) : e.got[b] # DetOut(e.U[b], e.p[b], e.V[b]) THEN {"det-value"} ELSE {})
      [] e.ev = "resid" -> IF e.r > (IF e.grade = "exact" THEN 0 ELSE Fine) THEN {e.what} ELSE {}
TInit == l = 1
TNext == \/ /\ l <= Len(Trace)
            /\ LET e == Trace[l] IN \A c \in Clauses(e) : PrintT("@@BAD " \o ToJson([i |-> l, clause |-> c]))
            /\ l' = l + 1
         \/ /\ l = Len(Trace) + 1 /\ PrintT("@@DONE " \o ToString(Len(Trace))) /\ l' = l + 1
TSpec == TInit /\ [][TNext]_l
================================================================================
