------------------------------ MODULE OutputTrace ------------------------------
(* Verdict over finished separation calls.                                   *)
(* kind: filter   - y = W x in every bin, W the stored demixing filter       *)
(*       whitened - y = W z, z the stored whitened mixture                   *)
(*       signal   - no filter is kept: y = M x for one matrix M per bin      *)
(*       wiener   - multichannel Wiener estimate at the reference channel    *)
(*       mask     - posterior mask times the reference channel               *)
EXTENDS Output, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLE l
Tol == 10          \* 1e-8
Cond == 100        \* smallest/largest singular value above 1e-7
Exact(e) == Len(e.out) = Len(e.W) /\ \A b \in 1..Len(e.W) : e.out[b] = MMul(e.W[b], e.X[b])
Common(e) == (IF e.shape = e.want THEN {} ELSE {"shape-of-the-result"})
             \cup (IF e.stored = 1 THEN {} ELSE {"returned-differs-from-stored-output"})
             \cup (IF e.finite = 1 THEN {} ELSE {"not-finite"})
Linear(e) == (IF e.lin <= Tol THEN {} ELSE {"not-one-linear-map-per-bin"})
             \cup (IF e.inv >= Cond THEN {} ELSE {"map-not-invertible"})
Filtered(e) == (IF e.wx <= Tol THEN {} ELSE {"output-is-not-the-filter-applied"})
               \cup (IF e.sep <= Tol THEN {} ELSE {"separate-of-the-mixture-differs-from-the-result"})
Start(e) == IF e.init <= Tol THEN {} ELSE {"signals-before-the-first-update-are-not-those-of-the-start"}
Kind(e) ==
    CASE e.kind = "filter" -> Filtered(e) \cup Linear(e)
      [] e.kind = "whitened" -> Filtered(e) \cup Linear(e)
      [] e.kind = "signal" -> Linear(e)
      [] e.kind = "wiener" -> (IF e.wiener <= 1000 THEN {} ELSE {"not-the-wiener-estimate"})
                              \cup (IF e.sum <= 1000 THEN {} ELSE {"estimates-do-not-sum-to-the-reference-channel"})
      [] e.kind = "mask" -> (IF e.mask <= Tol THEN {} ELSE {"not-the-stored-mask-applied"})
                            \cup (IF e.masksum <= Tol THEN {} ELSE {"masks-do-not-sum-to-one"})
                            \cup (IF e.posterior <= 1000 THEN {} ELSE {"mask-is-not-the-posterior-of-the-model"})
Clauses(e) ==
    CASE e.ev = "exc" -> {"raised"}
      [] e.ev = "exact" -> (IF e.resid <= Tol /\ Exact(e) THEN {} ELSE {"not-exactly-the-filter-applied"}) \cup
                           (IF e.sep = 1 THEN {} ELSE {"separate-differs-from-the-filter-applied"})
      [] e.ev = "run" -> Common(e) \cup Kind(e) \cup Start(e)
TInit == l = 1 /\ mode = "filter" /\ X = <<>> /\ T = <<>> /\ F = <<>> /\ Y = <<>> /\ k = 0 /\ phase = "run"
TNext == \/ /\ l <= Len(Trace)
            /\ LET e == Trace[l] IN \A c \in Clauses(e) : PrintT("@@BAD " \o ToJson([i |-> l, clause |-> c]))
            /\ l' = l + 1 /\ UNCHANGED vars
         \/ /\ l = Len(Trace) + 1 /\ PrintT("@@DONE " \o ToString(Len(Trace))) /\ l' = l + 1 /\ UNCHANGED vars
TSpec == TInit /\ [][TNext]_<<vars, l>>
=============================================================================
