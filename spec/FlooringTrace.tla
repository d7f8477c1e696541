---------------------------- MODULE FlooringTrace ------------------------------
(* Verdict over recorded calls: used = the floorings that were applied.          *)
EXTENDS Flooring, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLE l
ToSet(s) == {s[i] : i \in 1..Len(s)}
(* score functions given by the user or without a denominator: nothing to floor *)
Silent == {"GradFDICA", "NaturalGradFDICA", "GradIVA", "NaturalGradIVA", "GradGaussIVA", "NaturalGradGaussIVA"}
(* positive semidefinite reconstructions that always use the library's default   *)
Fixed == {"GaussIPSDTA", "TIPSDTA"}
Exempt(e) == IF e.cls \in Fixed THEN {"lib"} ELSE {}
Clauses(e) ==
    CASE e.ev = "exc" -> {"raised"}
      [] e.ev = "skip" -> {}
      [] OTHER ->
         (IF ToSet(e.used) \subseteq Allowed(e.arg, e.own) \cup Exempt(e) THEN {} ELSE {"another-flooring-used"})
         \cup (IF e.same <= 1000 THEN {} ELSE {"differs-from-the-same-flooring-held-by-the-method"})
         \cup (IF e.kind = "run" /\ e.cls \notin Silent /\ Resolve(e.arg, e.own) # "none"
                  => Resolve(e.arg, e.own) \in ToSet(e.used) THEN {} ELSE {"flooring-ignored"})
         \cup (IF e.kind = "function" => ToSet(e.used) = Allowed(e.arg, e.own) THEN {} ELSE {"flooring-ignored"})
TInit == l = 1 /\ own = 0 /\ arg = 0 /\ stack = <<>> /\ used = {} /\ steps = 0
TNext == \/ /\ l <= Len(Trace)
            /\ LET e == Trace[l] IN \A k \in Clauses(e) : PrintT("@@BAD " \o ToJson([i |-> l, clause |-> k]))
            /\ l' = l + 1 /\ UNCHANGED fvars
         \/ /\ l = Len(Trace) + 1 /\ PrintT("@@DONE " \o ToString(Len(Trace))) /\ l' = l + 1 /\ UNCHANGED fvars
TSpec == TInit /\ [][TNext]_<<fvars, l>>
================================================================================
