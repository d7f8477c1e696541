----------------------------- MODULE LinAlgTrace -----------------------------
(* Verdict over values the routines returned.  got is the returned value      *)
(* times its exact denominator, rounded; off is the distance of the rounding  *)
(* (1e-12 units, relative to the size of the values).                         *)
EXTENDS LinAlg, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLE l
Fine == 20000           \* 2e-8
Half == 2000000         \* 2e-6: square roots of rounding errors
Third == 400000000      \* 4e-4: cube roots of rounding errors
Items(e) == 1..Len(e.d)
Zeroed(d) == \E k \in 1..Len(d) : d[k] = 0
Common(e) == (IF e.alone > e.atol THEN {e.ev \o "-depends-on-batch"} ELSE {})
             \cup (IF e.shape # e.want THEN {e.ev \o "-shape"} ELSE {})
             \cup (IF e.touched = 1 THEN {e.ev \o "-input-touched"} ELSE {})
             \cup (IF e.dtype = 1 THEN {e.ev \o "-dtype"} ELSE {})
Clauses(e) ==
    CASE e.ev = "exc" -> {"raised"}
      [] e.ev = "inv2" -> Common(e)
            \cup (IF e.off > Fine \/ \E b \in 1..Len(e.A) : e.got[b] # InvDet(e.A[b]) THEN {"inv2-value"} ELSE {})
      [] e.ev = "solve" -> Common(e)
            \cup (IF e.off > Fine \/ \E b \in 1..Len(e.A) : e.got[b] # SolveDet(e.A[b], e.B[b]) THEN {"solve-value"} ELSE {})
      [] e.ev = "form" -> Common(e)
            \cup (IF e.off > Fine \/ \E b \in 1..Len(e.A) : e.got[b] # Form(e.A[b], e.x[b]) THEN {"form-value"} ELSE {})
      [] e.ev = "eig" -> Common(e)
            \cup (IF e.valoff > Fine \/ \E b \in Items(e) : e.val[b] # Sorted(e.d[b]) THEN {"eig-values"} ELSE {})
            \cup (IF e.ascend = 0 THEN {"eig-not-ascending"} ELSE {})
            \cup (IF e.off > Fine \/ \E b \in Items(e) : e.got[b] # Projectors(e.Z[b], e.d[b]) THEN {"eig-vectors"} ELSE {})
      [] e.ev = "root" -> Common(e)
            \cup (IF e.off > (IF \E b \in Items(e) : Zeroed(e.d[b]) THEN Half ELSE Fine)
                     \/ \E b \in Items(e) : e.got[b] # RootOut(e.m[b], e.d[b]) THEN {"root-value"} ELSE {})
      [] e.ev = "invroot" -> Common(e)
            \cup (IF e.off > Fine \/ \E b \in Items(e) : e.got[b] # InvRootOut(e.m[b], e.d[b], e.floor) THEN {"invroot-value"} ELSE {})
      [] e.ev = "mean" -> Common(e)
            \cup (IF e.off > Fine \/ \E b \in Items(e) : e.got[b] # MeanOut(e.Z[b], e.d[b]) THEN {"mean-value"} ELSE {})
      [] e.ev = "cbrt" -> Common(e)
            \cup (IF e.off > Fine \/ e.got # e.x THEN {"cbrt-value"} ELSE {})
            \cup (IF e.cplx = 0 /\ e.root # [k \in 1..Len(e.w) |-> e.w[k][1]] THEN {"cbrt-branch"} ELSE {})
      [] e.ev = "cubic" -> Common(e)
            \cup (IF \E b \in 1..Len(e.r) : \/ ~SameMultiset(e.got[b], e.r[b])
                                            \/ e.off[b] > (CASE Multiplicity(e.r[b]) = 1 -> Fine [] Multiplicity(e.r[b]) = 2 -> Half [] OTHER -> Third)
                  THEN {"cubic-roots"} ELSE {})
            \cup (IF e.one = 1 THEN {"cubic-one-of-the-roots"} ELSE {})
      [] e.ev = "lq" -> Common(e)
            \cup (IF e.off > Half \/ \E b \in 1..Len(e.items) : e.got[b] # LqOut(e.items[b].m, e.items[b].phi, e.items[b].g)
                  THEN {"lqpqm-minimizer"} ELSE {})
      [] e.ev = "lqzero" -> Common(e)
            \cup (IF e.off > Fine \/ \E b \in 1..Len(e.m) :
                        e.got[b] # LET u == Col(e.m[b], e.top[b]) t == IF e.above > 0 THEN 0 ELSE e.t[b] IN
                                   [i \in 1..Len(u) |-> [j \in 1..Len(u) |-> CScale(t * t, CMul(u[i], Conj(u[j])))]]
                  THEN {"lqpqm-zero-linear-term"} ELSE {})
      [] e.ev = "lqhard" ->
            (IF e.stationary > Half THEN {"lqpqm-hard-invalid"}
             ELSE IF e.off > Half \/ \E b \in 1..Len(e.items) : e.length[b] # LqHardLength(e.items[b]) \/ e.arg[b] # e.items[b].lam
             THEN {"lqpqm-hard-not-minimizer"} ELSE {})
      [] e.ev = "resid" -> IF e.r > (CASE e.grade = "exact" -> 0 [] e.grade = "fine" -> Fine [] e.grade = "half" -> Half) THEN {e.what} ELSE {}
TInit == l = 1
TNext == \/ /\ l <= Len(Trace)
            /\ LET e == Trace[l] IN \A c \in Clauses(e) : PrintT("@@BAD " \o ToJson([i |-> l, clause |-> c]))
            /\ l' = l + 1
         \/ /\ l = Len(Trace) + 1 /\ PrintT("@@DONE " \o ToString(Len(Trace))) /\ l' = l + 1
TSpec == TInit /\ [][TNext]_l
================================================================================
