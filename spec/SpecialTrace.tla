----------------------------- MODULE SpecialTrace -----------------------------
(* Verdict over values the special functions returned.  got is the returned   *)
(* value times its exact denominator, rounded; off is how far the rounding    *)
(* moved it (1e-12 units, relative).                                          *)
EXTENDS Special, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLE l
Fine == 5000            \* 5e-9
Single == 20000000      \* 2e-5: single precision inputs
ToSet(s) == {s[i] : i \in 1..Len(s)}
Tol(e) == IF e.prec = "single" THEN Single ELSE Fine
SoftBad(e) ==
    LET A == ToSet(e.axes)
        S == GroupSums(e.E, A)
    IN (IF e.soft # e.E \/ e.softoff > Tol(e) THEN {"softmax-ratio"} ELSE {})
       \cup (IF e.softshape # Dims(e.E) THEN {"softmax-shape"} ELSE {})
       \cup (IF e.lse # S \/ e.lseoff > Tol(e) THEN {"logsumexp-value"} ELSE {})
       \cup (IF e.lseshape # ReducedShape(e.E, A, e.keep = 1) THEN {"logsumexp-shape"} ELSE {})
FloorBad(e) ==
    (IF \E i \in 1..Len(e.x) : e.got[i] # Floor(e.floor, e.eps, e.x[i]) THEN {"value"} ELSE {})
    \cup (IF e.off > 0 THEN {"not-exact"} ELSE {})
PsdBad(e) ==
    (IF \E b \in 1..Len(e.m) : e.got[b] # PsdOut(e.m[b], e.d[b], e.floor, e.eps) THEN {"projection-value"} ELSE {})
    \cup (IF e.off > Fine THEN {"projection-inexact"} ELSE {})
    \cup (IF e.skew > 0 THEN {"projection-not-hermitian"} ELSE {})
    \cup (IF e.again > Fine THEN {"projection-not-idempotent"} ELSE {})
    \cup (IF e.alone > Fine THEN {"projection-depends-on-batch"} ELSE {})
    \cup (IF e.complex # e.cplx THEN {"projection-dtype"} ELSE {})
ResidBad(e) == IF e.r > (IF e.prec = "exact" THEN 0 ELSE Tol(e)) THEN {e.what} ELSE {}
Clauses(e) ==
    CASE e.ev = "exc" -> {"raised"}
      [] e.ev = "soft" -> SoftBad(e)
      [] e.ev = "floor" -> FloorBad(e)
      [] e.ev = "psd" -> PsdBad(e)
      [] e.ev = "choose" -> IF e.got # FloorChosen(e.asked, e.owner) THEN {"floor-chosen"} ELSE {}
      [] e.ev = "resid" -> ResidBad(e)
TInit == l = 1
TNext == \/ /\ l <= Len(Trace)
            /\ LET e == Trace[l] IN \A c \in Clauses(e) : PrintT("@@BAD " \o ToJson([i |-> l, clause |-> c]))
            /\ l' = l + 1
         \/ /\ l = Len(Trace) + 1 /\ PrintT("@@DONE " \o ToString(Len(Trace))) /\ l' = l + 1
TSpec == TInit /\ [][TNext]_l
================================================================================
