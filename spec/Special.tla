------------------------------- MODULE Special -------------------------------
(* The special functions by their definitions, over exact numbers: softmax    *)
(* and log-sum-exp of an array given by its exponentials (positive integers), *)
(* flooring of integers, and the positive semidefinite projection of          *)
(* matrices with a rational eigenbasis.                                       *)
EXTENDS Unitary
\* ---------------------------------------------------------------- arrays
(* an array is a sequence of sequences of sequences; axes is a subset of 1..3 *)
Dims(E) == <<Len(E), Len(E[1]), Len(E[1][1])>>
Slots(E) == (1..Len(E)) \X (1..Len(E[1])) \X (1..Len(E[1][1]))
At(E, x) == E[x[1]][x[2]][x[3]]
Group(E, axes, x) == {y \in Slots(E) : \A a \in (1..3) \ axes : y[a] = x[a]}
RECURSIVE SumOver(_, _)
SumOver(E, S) == IF S = {} THEN 0 ELSE LET y == CHOOSE y \in S : TRUE IN At(E, y) + SumOver(E, S \ {y})
GroupSum(E, axes, x) == SumOver(E, Group(E, axes, x))
GroupSums(E, axes) == TLCEval([i \in 1..Len(E) |-> [j \in 1..Len(E[1]) |-> [k \in 1..Len(E[1][1]) |-> GroupSum(E, axes, <<i, j, k>>)]]])
(* softmax is At(E, x) / GroupSum(E, axes, x), log-sum-exp is ln GroupSum     *)
RECURSIVE Kept(_, _, _, _)
Kept(d, axes, keep, k) ==
    IF k = 0 THEN <<>>
    ELSE Kept(d, axes, keep, k - 1) \o (IF k \in axes THEN (IF keep THEN <<1>> ELSE <<>>) ELSE <<d[k]>>)
ReducedShape(E, axes, keep) == Kept(Dims(E), axes, keep, 3)
\* ---------------------------------------------------------------- floors
(* kind: "none", "max" or "add"                                              *)
Floor(kind, eps, x) == CASE kind = "none" -> x [] kind = "max" -> IF x < eps THEN eps ELSE x [] kind = "add" -> x + eps
\* ---------------------------------------------------------------- projection
(* input: Hermitian part with eigenvectors m / den and eigenvalues d, plus an *)
(* anti-Hermitian part K; everything times den^2                             *)
AntiHermitian(K) == \A i, j \in 1..Len(K) : K[i][j] = CNeg(Conj(K[j][i]))
PsdIn(m, d, K) == MAdd(Conjugated(m, d), K)
PsdOut(m, d, kind, eps) == Conjugated(m, [i \in 1..Len(d) |-> Floor(kind, eps, d[i])])
\* ---------------------------------------------------------------- who is the floor
(* a method's floor: asked = "self" -> the object's own floor (or the identity *)
(* when there is no object or the object has none), "none" -> the identity,   *)
(* "own" -> the given one                                                     *)
FloorChosen(asked, owner) ==
    CASE asked = "own" -> "given"
      [] asked = "none" -> "identity"
      [] asked = "self" -> IF owner = "with" THEN "owner" ELSE "identity"
      [] asked = "bad" -> "refused"
=============================================================================
