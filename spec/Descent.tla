-------------------------------- MODULE Descent --------------------------------
(* Majorization-minimization as a state machine on a small domain: every loss  *)
(* F, every majorizer Q(.|anchor) that touches F at its anchor and lies above   *)
(* it, and an iteration made of block updates, each of which minimizes (or only *)
(* decreases) the majorizer over one coordinate.  Normalization moves inside a  *)
(* level set of F.  The recorded losses never increase; replacing the           *)
(* re-anchoring by a stale anchor (Stale = TRUE) breaks it, which shows that    *)
(* the property constrains the schedule and not only the single update.         *)
EXTENDS Integers, Sequences, FiniteSets, TLC
CONSTANTS A, B, Vals, Gap, Steps, Stale
VARIABLES F, D, x, anchor, rec, k
vars == <<F, D, x, anchor, rec, k>>
Pts == A \X B
Q(y) == F[y] + IF y = anchor THEN 0 ELSE D[y]
DInit == /\ F \in [Pts -> Vals] /\ D \in [Pts -> 0..Gap] /\ x \in Pts /\ anchor = x
         /\ rec = <<F[x]>> /\ k = 0
Line(i) == {y \in Pts : y[3 - i] = x[3 - i]}
DUpdate(i) == /\ k < Steps /\ k' = k + 1
              /\ \E y \in Line(i) :
                   /\ \A w \in Line(i) : Q(y) <= Q(w)
                   /\ x' = y /\ rec' = Append(rec, F[y])
                   /\ anchor' = IF Stale THEN anchor ELSE y
              /\ UNCHANGED <<F, D>>
DNormalize == /\ k < Steps /\ k' = k + 1
              /\ \E y \in Pts : F[y] = F[x] /\ x' = y /\ anchor' = (IF Stale THEN anchor ELSE y) /\ rec' = Append(rec, F[y])
              /\ UNCHANGED <<F, D>>
DNext == DUpdate(1) \/ DUpdate(2) \/ DNormalize
DSpec == DInit /\ [][DNext]_vars
Monotone == \A i \in 1..Len(rec) - 1 : rec[i + 1] <= rec[i]
BelowStart == F[x] <= rec[1]

(* ---- which recorded losses are promised to descend ------------------------ *)
(* fam as in Objective; rule: name of the spatial update; src: source update    *)
MM(e) == \/ e.fam \in {"gauss", "t", "ggd", "psdtf", "tpsdtf", "mnmf", "fastmnmf", "mixture"}
         \/ e.fam = "tf" /\ e.aux = 1
(* the variance of the Gaussian IVA model is unbounded below: only early iterations are regular *)
Horizon(e) == IF e.variance = 1 THEN 4 ELSE 1000
(* shared-basis MNMF: its normalization is documented to move off the level set *)
Exempt(e) == e.fam = "mnmf" /\ e.part = 1 /\ e.norm = 1
(* the weights of a shared basis are projected back to sum to one after their  *)
(* own update (documented); the basis update that follows absorbs the scale     *)
Projected(e) == e.block \in {"update_latent_mm", "update_latent_me", "update_latent", "update_source_model"} /\ e.part = 1
Required(e) == MM(e) /\ e.k <= Horizon(e) /\ ~Exempt(e) /\ e.regular = 1
===============================================================================
