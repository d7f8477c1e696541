------------------------------- MODULE Unimod -------------------------------
(* Random unimodular (unit determinant) real or Gaussian integer matrices.    *)
EXTENDS CInt
UShear(n, i, j, c) == TLCEval([a \in 1..n |-> [b \in 1..n |-> IF a = b THEN One ELSE IF a = i /\ b = j THEN c ELSE Zero]])
UFactors(cplx) == IF cplx THEN {<<1, 0>>, <<-1, 0>>, <<0, 1>>, <<0, -1>>, <<1, 1>>} ELSE {<<1, 0>>, <<-1, 0>>}
UPermSet(n) == {p \in [1..n -> 1..n] : {p[i] : i \in 1..n} = 1..n}
UElementary(n, cplx) ==
    Bind(RandomElement(1..n), LAMBDA i :
    Bind(RandomElement((1..n) \ {i}), LAMBDA j :
    Bind(RandomElement(UFactors(cplx)), LAMBDA c : UShear(n, i, j, c))))
RECURSIVE RandUnimod(_, _, _)
RandUnimod(n, k, cplx) ==
    IF k = 0 \/ n = 1 THEN Bind(RandomElement(UPermSet(n)), LAMBDA p : TLCEval(PermM(p)))
    ELSE Bind(RandUnimod(n, k - 1, cplx), LAMBDA P : Bind(UElementary(n, cplx), LAMBDA M : MMul(M, P)))
=============================================================================
