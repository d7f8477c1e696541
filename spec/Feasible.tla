------------------------------- MODULE Feasible -------------------------------
(* Feasible sets of model parameters under update, flooring and normalization. *)
(* Design: a source model t_k (basis) and weights z_{n,k} over two sources,     *)
(* with the mean power p_n of each separated signal; values are fractions       *)
(* <<num, den>>.  An iteration is Update (any multiplicative factor, possibly   *)
(* zero), Floor, then Normalize by power.  Normalize must keep every ratio      *)
(* p_n / r_n, r_n = sum_k z_{n,k} t_k, hence the likelihood up to the balanced  *)
(* log terms.                                                                   *)
EXTENDS Integers, Sequences, FiniteSets, TLC
CONSTANTS Srcs, Bases, Floor, Factors, Powers, Depth
VARIABLES t, z, p, phase, k, last
vars == <<t, z, p, phase, k, last>>
RECURSIVE Gcd(_, _)
Gcd(a, b) == IF b = 0 THEN a ELSE Gcd(b, a % b)
Nrm(r) == IF r[1] = 0 THEN <<0, 1>> ELSE LET g == Gcd(r[1], r[2]) IN <<r[1] \div g, r[2] \div g>>
RMul(a, b) == Nrm(<<a[1] * b[1], a[2] * b[2]>>)
RDiv(a, b) == Nrm(<<a[1] * b[2], a[2] * b[1]>>)
RAdd(a, b) == Nrm(<<a[1] * b[2] + b[1] * a[2], a[2] * b[2]>>)
Leq(a, b) == a[1] * b[2] <= b[1] * a[2]
RMax(a, b) == IF Leq(a, b) THEN b ELSE a
RECURSIVE RSumOver(_, _)
RSumOver(f, S) == IF S = {} THEN <<0, 1>> ELSE LET x == CHOOSE y \in S : TRUE IN RAdd(f[x], RSumOver(f, S \ {x}))
Model(n) == RSumOver([b \in Bases |-> RMul(z[n][b], t[b])], Bases)
Ratios == [n \in Srcs |-> RDiv(p[n], Model(n))]
FInit == /\ t \in [Bases -> {<<1, 1>>, <<2, 1>>}]
         /\ z \in {f \in [Srcs -> [Bases -> {<<1, 4>>, <<1, 2>>, <<3, 4>>}]] :
                     \A b \in Bases : RSumOver([n \in Srcs |-> f[n][b]], Srcs) = <<1, 1>>}
         /\ p \in [Srcs -> Powers]
         /\ phase = "update" /\ k = 0 /\ last = Ratios
FUpdate == /\ phase = "update" /\ k < Depth /\ k' = k + 1
           /\ \E f \in [Bases -> Factors] : t' = [b \in Bases |-> RMul(t[b], f[b])]
           /\ \E g \in Factors \ {<<0, 1>>} : \E n0 \in Srcs :
                LET w == [n \in Srcs |-> [b \in Bases |-> IF n = n0 THEN RMul(z[n][b], g) ELSE z[n][b]]] IN
                z' = [n \in Srcs |-> [b \in Bases |-> RDiv(w[n][b], RSumOver([m \in Srcs |-> w[m][b]], Srcs))]]
           /\ \E q \in [Srcs -> Powers] : p' = q
           /\ phase' = "floor" /\ last' = last
FFloor == /\ phase = "floor" /\ t' = [b \in Bases |-> RMax(t[b], Floor)] /\ phase' = "norm"
          /\ UNCHANGED <<z, p, k>> /\ last' = last
FNorm == /\ phase = "norm" /\ phase' = "update" /\ UNCHANGED k
         /\ last' = Ratios
         /\ LET zp == [n \in Srcs |-> [b \in Bases |-> RDiv(z[n][b], p[n])]]
                s  == [b \in Bases |-> RSumOver([n \in Srcs |-> zp[n][b]], Srcs)] IN
            /\ t' = [b \in Bases |-> RMul(t[b], s[b])]
            /\ z' = [n \in Srcs |-> [b \in Bases |-> RDiv(zp[n][b], s[b])]]
         /\ p' = [n \in Srcs |-> <<1, 1>>]
FNext == FUpdate \/ FFloor \/ FNorm
FSpec == FInit /\ [][FNext]_vars
Positive == \A b \in Bases : t[b][1] >= (IF phase = "floor" THEN 0 ELSE 1)
WeightsSumToOne == \A b \in Bases : RSumOver([n \in Srcs |-> z[n][b]], Srcs) = <<1, 1>>
Floored == phase = "norm" => \A b \in Bases : Leq(Floor, t[b])
SameRatio == (phase = "update" /\ k > 0) => Ratios = last

(* ---- which parameters a family holds and what is required of them --------- *)
Params(f) == CASE f = "ilrma" -> {"basis", "activation", "filter"}
               [] f = "ilrmapart" -> {"basis", "activation", "latent", "filter"}
               [] f = "mnmf" -> {"basis", "activation", "spatial"}
               [] f = "mnmfpart" -> {"basis", "activation", "latent", "spatial"}
               [] f = "fastmnmf" -> {"basis", "activation", "spatial", "filter"}
               [] f = "psdtf" -> {"basis", "activation", "filter"}
               [] f = "mixture" -> {"mixing", "posterior", "spatial"}
               [] f = "variance" -> {"variance", "filter"}
               [] OTHER -> {"filter"}
Weights(f) == Params(f) \cap {"latent", "mixing", "posterior"}
NonNegative(f) == Params(f) \ {"filter"}
(* parameters that the last operation on them floors (a matrix: its eigenvalues) *)
FlooredAfter(e) ==
    CASE e.fam \in {"ilrma", "ilrmapart"} -> {"activation"} \cup (IF e.norm = 0 THEN {"basis"} ELSE {})
      [] e.fam \in {"mnmf", "mnmfpart"} -> {"activation"} \cup (IF e.norm = 0 THEN {"basis", "spatial"} ELSE {})
      [] e.fam = "fastmnmf" -> {"basis", "activation"}
      [] e.fam = "psdtf" -> IF e.norm = 0 THEN {"basis"} ELSE {}
      [] e.fam = "mixture" -> IF e.norm = 0 THEN {"spatial"} ELSE {}
      [] OTHER -> {}
Definite(f) == IF f \in {"mnmf", "mnmfpart", "mixture"} THEN {"spatial"} ELSE IF f = "psdtf" THEN {"basis"} ELSE {}
UnitTrace(e) == IF e.norm = 0 THEN {} ELSE Definite(e.fam)
UnitPower(e) == e.norm = 1 /\ e.fam \in {"ilrma", "ilrmapart", "fastmnmf"}
(* normalization is documented to change the cost only for shared bases of MNMF *)
Invariant(e) == e.fam # "mnmfpart"
===============================================================================
