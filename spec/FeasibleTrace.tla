---------------------------- MODULE FeasibleTrace ----------------------------
(* Verdict over the parameters observed at every iteration.                   *)
(* state: one observation; par maps parameter -> measured record               *)
(*   neg, low: how far (in 1e-9) the smallest value (eigenvalue) is below zero  *)
(*   and, relatively, below the floor; sum: distance of the sums over sources   *)
(*   from one; herm: distance from Hermitian; trace: from unit trace            *)
(* inv: losses of the same run with and without normalization                   *)
EXTENDS Feasible, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLE l
Held(e) == DOMAIN e.par
Bad(e, name, S, F(_)) == {name \o ":" \o x : x \in {y \in S \cap Held(e) : ~F(e.par[y])}}
Clauses(e) ==
    CASE e.ev = "exc" -> {"raised"}
      [] e.ev = "inv" -> IF e.diff <= 1000 \/ ~Invariant(e) THEN {} ELSE {"normalization-changes-the-loss"}
      [] e.ev = "state" ->
           {"missing:" \o x : x \in Params(e.fam) \ (Held(e) \cup (IF e.k = 0 THEN {"posterior"} ELSE {})
                                                     \cup (IF e.nofilter = 1 THEN {"filter"} ELSE {}))}
           \cup Bad(e, "not-finite", Held(e), LAMBDA m : m.fin = 1)
           \cup Bad(e, "negative", NonNegative(e.fam), LAMBDA m : m.fin = 0 \/ m.neg <= 1)
           \cup Bad(e, "below-the-floor", IF e.k > 0 \/ e.random = 1 THEN IF e.k > 0 THEN FlooredAfter(e) ELSE FlooredAfter(e) \cap {"activation"} ELSE {},
                    LAMBDA m : m.fin = 0 \/ m.low <= 1000)
           \cup Bad(e, "weights-do-not-sum-to-one", IF e.k > 0 \/ e.smallfloor = 1 THEN Weights(e.fam) ELSE {}, LAMBDA m : m.fin = 0 \/ m.sum <= 10)
           \cup Bad(e, "above-one", Weights(e.fam) \ (IF e.smallfloor = 1 THEN {} ELSE {"latent"}), LAMBDA m : m.fin = 0 \/ m.over <= 1)
           \cup Bad(e, "not-hermitian", Definite(e.fam), LAMBDA m : m.fin = 0 \/ m.herm <= 1)
           \cup Bad(e, "singular", Definite(e.fam) \cup {"filter"}, LAMBDA m : m.fin = 0 \/ m.singular = 0)
           \cup Bad(e, "trace-is-not-one", IF e.k > 0 THEN UnitTrace(e) ELSE {}, LAMBDA m : m.fin = 0 \/ m.trace <= 10)
           \cup (IF UnitPower(e) /\ e.k > 0 /\ e.power > 1000 THEN {"power-is-not-one"} ELSE {})
TInit == l = 1 /\ t = 0 /\ z = 0 /\ p = 0 /\ phase = "" /\ k = 0 /\ last = 0
TNext == \/ /\ l <= Len(Trace)
            /\ LET e == Trace[l] IN \A c \in Clauses(e) : PrintT("@@BAD " \o ToJson([i |-> l, clause |-> c]))
            /\ l' = l + 1 /\ UNCHANGED vars
         \/ /\ l = Len(Trace) + 1 /\ PrintT("@@DONE " \o ToString(Len(Trace))) /\ l' = l + 1 /\ UNCHANGED vars
TSpec == TInit /\ [][TNext]_<<vars, l>>
===============================================================================
