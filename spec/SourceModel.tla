------------------------------ MODULE SourceModel ------------------------------
(* Block-coordinate updates of the source, spatial and mixture models.         *)
(*   Schedule(c)   the blocks of one iteration, in order                        *)
(*   Writes(c, b)  the only parameters block b of configuration c may change    *)
(*   Expo(c)       the exponent of the multiplicative rules, a ratio of integers *)
(* as a state machine: every parameter carries a version, a block bumps the      *)
(* versions of what it writes.  The arithmetic part (SourceMC) shows on integer  *)
(* grids that the documented rules are the minimizers of the majorizer.          *)
EXTENDS Integers, Sequences, FiniteSets, TLC
CONSTANTS Iters
Bind(v, F(_)) == F(v)
VARIABLES cfg, pc, ver, iter
vars == <<cfg, pc, ver, iter>>

ILRMA == {"gauss", "t", "ggd"}
NMFs == ILRMA \cup {"mnmf", "fastmnmf"}
PSDTF == {"psdtf", "tpsdtf"}
Fams == NMFs \cup PSDTF \cup {"mixture", "variance"}
Params == {"basis", "activation", "latent", "spatial", "diagonalizer", "filter", "posterior", "mixing", "covariance", "variance"}

Valid(c) == /\ c.part = 1 => c.fam \in ILRMA \cup {"mnmf"}
            /\ c.alg = "ME" => c.fam \in {"gauss", "t"} /\ c.p2 = 4
            /\ c.fam \notin ILRMA => c.p2 = 4
            /\ c.sp = "IPA" => c.fam = "gauss"
            /\ c.fam = "variance" => c.norm = 0
            /\ c.k > 1 \/ c.part = 0

(* one iteration *)
Schedule(c) ==
    CASE c.fam \in ILRMA -> (IF c.part = 1 THEN <<"latent">> ELSE <<>>) \o <<"basis", "activation", "demix">>
                            \o (IF c.norm = 1 THEN <<"normalize">> ELSE <<>>)
      [] c.fam = "mnmf" -> <<"basis", "activation", "spatial">> \o (IF c.norm = 1 THEN <<"normalize">> ELSE <<>>)
                            \o (IF c.part = 1 THEN <<"latent">> ELSE <<>>)
      [] c.fam = "fastmnmf" -> <<"basis", "activation", "diagonalizer", "spatial">> \o (IF c.norm = 1 THEN <<"normalize">> ELSE <<>>)
      [] c.fam \in PSDTF -> <<"basis", "activation">> \o (IF c.norm = 1 THEN <<"normalize">> ELSE <<>>) \o <<"demix">>
      [] c.fam = "mixture" -> <<"posterior", "mixture">> \o (IF c.norm = 1 THEN <<"normalize">> ELSE <<>>)
      [] c.fam = "variance" -> <<"variance", "demix">>
Blocks(c) == {Schedule(c)[i] : i \in 1..Len(Schedule(c))}
(* blocks with a closed form of their own (the others are the filters' rules of UpdateRules) *)
Closed(c) == Blocks(c) \cap {"latent", "basis", "activation", "spatial", "posterior", "mixture", "variance"}

Writes(c, b) ==
    CASE b = "demix" -> {"filter"}
      [] b = "mixture" -> {"mixing", "covariance"}
      [] b = "normalize" ->
           (CASE c.fam \in ILRMA -> {"filter", "basis"} \cup (IF c.part = 1 THEN {"latent"} ELSE {})
              [] c.fam = "mnmf" -> {"spatial"} \cup (IF c.part = 1 THEN {} ELSE {"basis"})
              [] c.fam = "fastmnmf" -> {"spatial", "diagonalizer"}
              [] c.fam \in PSDTF -> {"basis", "activation"}
              [] c.fam = "mixture" -> {"covariance"})
      [] OTHER -> {b}
Owned(c) == UNION {Writes(c, b) : b \in Blocks(c)}

(* multiplicative rules: new = old * (num / denom)^(Expo[1]/Expo[2]); p = p2/2, beta = b10/10 *)
Expo(c) == CASE c.fam \in {"gauss", "t"} -> IF c.alg = "ME" THEN <<1, 1>> ELSE <<c.p2, c.p2 + 4>>
             [] c.fam = "ggd" -> <<5 * c.p2, c.b10 + 5 * c.p2>>
             [] OTHER -> <<1, 2>>

MInit(Cfgs) == cfg \in Cfgs /\ pc = 1 /\ iter = 0 /\ ver = [p \in Params |-> 0]
MStep == /\ iter < Iters
         /\ LET s == Schedule(cfg) IN
            /\ ver' = [p \in Params |-> IF p \in Writes(cfg, s[pc]) THEN ver[p] + 1 ELSE ver[p]]
            /\ IF pc = Len(s) THEN pc' = 1 /\ iter' = iter + 1 ELSE pc' = pc + 1 /\ iter' = iter
         /\ UNCHANGED cfg

(* ---- invariants of the schedule ------------------------------------------- *)
Once(c) == \A i, j \in 1..Len(Schedule(c)) : Schedule(c)[i] = Schedule(c)[j] => i = j
NothingElse == \A p \in Params \ Owned(cfg) : ver[p] = 0
Progress == pc = 1 => \A p \in Owned(cfg) : ver[p] = iter * Cardinality({b \in Blocks(cfg) : p \in Writes(cfg, b)})
SchedOK == Valid(cfg) => Once(cfg) /\ NothingElse /\ Progress
(* the posterior is computed from the parameters of the previous M step, and the M step from this posterior *)
EMOrder == cfg.fam = "mixture" => ver["posterior"] - ver["mixing"] \in {0, 1}
(* filters move only after the model they are weighted with has been refreshed *)
Fresh == cfg.fam \in ILRMA \cup PSDTF /\ cfg.norm = 0 => ver["filter"] <= ver["basis"] /\ ver["filter"] <= ver["activation"]
ExpoOK == Expo(cfg)[1] > 0 /\ Expo(cfg)[1] <= Expo(cfg)[2] /\ (cfg.alg # "ME" => Expo(cfg)[1] < Expo(cfg)[2])
================================================================================
