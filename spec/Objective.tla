------------------------------ MODULE Objective ------------------------------
(* The documented objective of every family of methods, as a weighted sum of  *)
(* measured ingredients, and the exact algebra that makes the two bookkeeping *)
(* forms (explicit filter / separated signal only) the same objective.        *)
EXTENDS CInt
VARIABLES W, X, Y, kept
vars == <<W, X, Y, kept>>

(* ---- coefficients, as <<numerator, denominator>>; dof is <<num, den>> ---- *)
Nu(d, extra) == <<d[1] + extra * d[2], 2 * d[2]>>      \* (dof + extra) / 2
Terms(f) ==
    CASE f.fam = "ica"      -> {<<"contrast", <<1, 1>>>>, <<"logdet", <<-1, 1>>>>}
      [] f.fam = "fixed"    -> {<<"contrast", <<1, 1>>>>}
      [] f.fam = "tf"       -> {<<"contrast", <<1, 1>>>>, <<"logdet", <<-2, 1>>>>}
      [] f.fam = "gauss"    -> {<<"quad", <<1, 1>>>>, <<"logr", <<1, 1>>>>, <<"logdet", <<-2, 1>>>>}
      [] f.fam = "t"        -> {<<"logt", Nu(f.dof, 2)>>, <<"logr", <<1, 1>>>>, <<"logdet", <<-2, 1>>>>}
      [] f.fam = "ggd"      -> {<<"power", <<1, 1>>>>, <<"logr", <<1, 1>>>>, <<"logdet", <<-2, 1>>>>}
      [] f.fam = "psdtf"    -> {<<"quad", <<1, 1>>>>, <<"logdetR", <<1, 1>>>>, <<"logdet", <<-2, 1>>>>}
      [] f.fam = "tpsdtf"   -> {<<"logt", Nu(f.dof, 2 * f.bins)>>, <<"logdetR", <<1, 1>>>>, <<"logdet", <<-2, 1>>>>}
      [] f.fam = "mnmf"     -> {<<"quad", <<1, 1>>>>, <<"logdetR", <<1, 1>>>>}
      [] f.fam = "fastmnmf" -> {<<"quad", <<1, 1>>>>, <<"logr", <<1, 1>>>>, <<"logdet", <<-2, 1>>>>}
      [] f.fam = "mixture"  -> {<<"loglik", <<-1, 1>>>>}
      [] f.fam = "penalty"  -> {<<"penalty", <<1, 1>>>>, <<"logdet", <<-1, 1>>>>}
RECURSIVE SumTerms(_, _, _)
SumTerms(S, ing, den) == IF S = {} THEN 0
    ELSE LET t == CHOOSE u \in S : TRUE IN (den \div t[2][2]) * t[2][1] * ing[t[1]] + SumTerms(S \ {t}, ing, den)
Den(f) == IF f.fam \in {"t", "tpsdtf"} THEN 2 * f.dof[2] ELSE 1
(* den * objective *)
Value(f, ing) == SumTerms(Terms(f), ing, Den(f))

(* ---- bookkeeping: a filter-based object keeps W; a signal-based one keeps Y *)
(* and recovers det W from Gram matrices.  Updates multiply W by a matrix.    *)
CONSTANTS N, Frames, Depth
Elem == {M \in [1..N -> [1..N -> {Zero, One, <<0, 1>>, <<-1, 0>>}]] : Det(M) \in {One, <<-1, 0>>, <<0, 1>>, <<0, -1>>, <<-1, 1>>}}
Xs == {M \in [1..N -> [1..Frames -> {Zero, One, <<0, 1>>}]] : Det(MMul(M, Herm(M))) # Zero}
OInit == /\ W = [i \in 1..N |-> [j \in 1..N |-> IF i = j THEN One ELSE Zero]]
         /\ X \in Xs /\ Y = X /\ kept = 0
OUpdate == /\ kept < Depth /\ kept' = kept + 1 /\ UNCHANGED X
           /\ \E M \in Elem : W' = MMul(M, W) /\ Y' = MMul(M, Y)
ONext == OUpdate
OSpec == OInit /\ [][ONext]_vars
(* det W recovered from the signals alone: det(Y X^H) = det W det(X X^H)      *)
SameDet == Det(MMul(Y, Herm(X))) = CMul(Det(W), Det(MMul(X, Herm(X))))
SameSignal == Y = MMul(W, X)
=============================================================================
