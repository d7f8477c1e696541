---------------------------- MODULE TransformTrace ----------------------------
(* Verdict over outputs of whiten and pca.  gram: Gram matrices of the output *)
(* (times Det(C)/T for whitening), rounded; off: rounding distance;           *)
(* corr: largest correlation between output channels; power: output variance  *)
(* deviation from one; order: monotone variances.                             *)
EXTENDS Transform, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLE l
Fine == 20000           \* 2e-8
Blocks(e) == (1..Len(e.X)) \X (1..Len(e.X[1]))
GramWant(e, x) == IF e.fn = "whiten" THEN WhitenGram(x) ELSE Gram(x)
Clauses(e) ==
    CASE e.ev = "exc" -> {"raised"}
      [] e.ev = "refuse" -> IF e.refused = 0 THEN {"accepted-unsupported-input"} ELSE {}
      [] e.ev = "out" ->
            (IF e.shape # e.want THEN {e.fn \o "-shape"} ELSE {})
            \cup (IF e.dtype = 1 THEN {e.fn \o "-dtype"} ELSE {})
            \cup (IF e.touched = 1 THEN {e.fn \o "-input-touched"} ELSE {})
            \cup (IF e.off > Fine \/ \E x \in Blocks(e) : e.gram[x[1]][x[2]] # GramWant(e, e.X[x[1]][x[2]])
                  THEN {e.fn \o "-not-the-linear-map"} ELSE {})
            \cup (IF e.corr > Fine THEN {e.fn \o "-correlated"} ELSE {})
            \cup (IF e.fn = "whiten" /\ e.power > Fine THEN {"whiten-variance"} ELSE {})
            \cup (IF e.fn = "pca" /\ e.order = 0 THEN {"pca-order"} ELSE {})
            \cup (IF e.alone > Fine THEN {e.fn \o "-depends-on-other-blocks"} ELSE {})
            \cup (IF e.frames > Fine THEN {e.fn \o "-depends-on-frame-order"} ELSE {})
      [] e.ev = "resid" -> IF e.r > (IF e.grade = "exact" THEN 0 ELSE Fine) THEN {e.what} ELSE {}
TInit == l = 1
TNext == \/ /\ l <= Len(Trace)
            /\ LET e == Trace[l] IN \A c \in Clauses(e) : PrintT("@@BAD " \o ToJson([i |-> l, clause |-> c]))
            /\ l' = l + 1
         \/ /\ l = Len(Trace) + 1 /\ PrintT("@@DONE " \o ToString(Len(Trace))) /\ l' = l + 1
TSpec == TInit /\ [][TNext]_l
================================================================================
