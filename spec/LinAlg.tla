------------------------------- MODULE LinAlg -------------------------------
(* The linear-algebra routines by their defining equations over exact         *)
(* (Gaussian integer or rational) operands.                                   *)
EXTENDS Unitary
\* ---------------------------------------------------------------- inverse, solve, forms
\* inverse * det and solution * det
InvDet(A) == Adj(A)
SolveDet(A, B) == MMul(Adj(A), B)
Form(A, x) == CDot([i \in 1..Len(x) |-> Conj(x[i])], MVec(A, x))
\* ---------------------------------------------------------------- eigenproblems
(* An eigenproblem is posed by its answer: columns of Z are eigenvectors with *)
(* eigenvalues d.  kind 0: plain (Z = m / den unitary, A is den^2 times the   *)
(* matrix); kinds 1..3: generalized, Z unimodular.                            *)
ZL(Z, d) == MMul(Z, DiagM([k \in 1..Len(d) |-> <<d[k], 0>>]))
EigA(kind, Z, d) ==
    CASE kind \in {0, 2} -> Bind(ZL(Z, d), LAMBDA P : MMul(P, Herm(Z)))
      [] kind \in {1, 3} -> Bind(Inv(Z), LAMBDA I : MMul(Herm(I), MMul(DiagM([k \in 1..Len(d) |-> <<d[k], 0>>]), I)))
EigB(kind, Z) ==
    CASE kind = 0 -> Eye(Len(Z))
      [] kind \in {1, 2} -> Bind(Inv(Z), LAMBDA I : MMul(Herm(I), I))
      [] kind = 3 -> MMul(Z, Herm(Z))
(* the defining equation, columnwise                                         *)
EigHolds(kind, A, B, Z, d) ==
    CASE kind = 1 -> MMul(A, Z) = MMul(B, ZL(Z, d))
      [] kind = 2 -> MMul(A, MMul(B, Z)) = ZL(Z, d)
      [] kind = 3 -> MMul(B, MMul(A, Z)) = ZL(Z, d)
(* normalization: Z^H B Z = I (kinds 1 and 2), Z^H B^-1 Z = I (kind 3)        *)
EigNormal(kind, B, Z) ==
    IF kind = 3 THEN MMul(Z, Herm(Z)) = B ELSE MMul(Herm(Z), MMul(B, Z)) = Eye(Len(Z))
Values(d) == {d[k] : k \in 1..Len(d)}
RECURSIVE Ascending(_)
Ascending(S) == IF S = {} THEN <<>> ELSE LET m == CHOOSE x \in S : \A y \in S : x <= y IN <<m>> \o Ascending(S \ {m})
Count(d, x) == Cardinality({k \in 1..Len(d) : d[k] = x})
Rep(x, k) == [i \in 1..k |-> x]
RECURSIVE Spread(_, _)
Spread(d, vals) == IF vals = <<>> THEN <<>> ELSE Rep(Head(vals), Count(d, Head(vals))) \o Spread(d, Tail(vals))
Sorted(d) == Spread(d, Ascending(Values(d)))
(* sum of z z^H over the eigenvectors of one eigenvalue: the invariant part   *)
(* of the answer                                                             *)
Projector(Z, d, x) ==
    Bind([i \in 1..Len(Z) |-> [k \in 1..Len(d) |-> IF d[k] = x THEN Z[i][k] ELSE Zero]], LAMBDA P : MMul(P, Herm(P)))
Projectors(Z, d) == LET vals == Ascending(Values(d)) IN [k \in 1..Len(vals) |-> Projector(Z, d, vals[k])]
\* ---------------------------------------------------------------- roots of matrices
Squares(d) == [k \in 1..Len(d) |-> d[k] * d[k]]
RootIn(m, d) == Conjugated(m, Squares(d))
RootOut(m, d) == Conjugated(m, d)
(* inverse root times 12: the d are divisors of 12, floored from below        *)
InvRootOut(m, d, floor) == Conjugated(m, [k \in 1..Len(d) |-> 12 \div (IF d[k] < floor THEN floor ELSE d[k])])
\* ---------------------------------------------------------------- geometric means
(* all three types have the answer Z d Z^H                                   *)
MeanA(kind, Z, d) == CASE kind = 1 -> MMul(Z, Herm(Z)) [] kind = 2 -> EigB(1, Z) [] kind = 3 -> EigA(2, Z, Squares(d))
MeanB(kind, Z, d) == CASE kind \in {1, 2} -> EigA(2, Z, Squares(d)) [] kind = 3 -> EigB(1, Z)
MeanOut(Z, d) == EigA(2, Z, d)
\* X A^-1 X = B for unimodular operands
Riccati(A, B, X) == MMul(X, MMul(Inv(A), X)) = B
\* ---------------------------------------------------------------- cubics
Cubic(a, r) ==
    LET s1 == CAdd(r[1], CAdd(r[2], r[3]))
        s2 == CAdd(CMul(r[1], r[2]), CAdd(CMul(r[1], r[3]), CMul(r[2], r[3])))
        s3 == CMul(r[1], CMul(r[2], r[3]))
    IN <<a, CNeg(CMul(a, s1)), CMul(a, s2), CNeg(CMul(a, s3))>>
CubicAt(c, x) == CAdd(CMul(CAdd(CMul(CAdd(CMul(c[1], x), c[2]), x), c[3]), x), c[4])
Times(s, x) == Cardinality({k \in 1..Len(s) : s[k] = x})
SameMultiset(s, t) == Len(s) = Len(t) /\ \A k \in 1..Len(s) : Times(s, s[k]) = Times(t, s[k])
Multiplicity(r) == CHOOSE n \in 1..3 : (\E k \in 1..3 : Times(r, r[k]) = n) /\ (\A k \in 1..3 : Times(r, r[k]) <= n)
\* ---------------------------------------------------------------- LQPQM
(* min |q|^2 - log((q + v)^H H (q + v) + z), posed by its multiplier lam:     *)
(* H = U phi U^H, v = U ((lam - phi) g) / lam, z = lam - sum phi |g|^2,       *)
(* answer q = U (phi g) / lam; lam > max phi makes it the global minimizer    *)
LqIn(m, phi, g, lam) == MVec(m, [k \in 1..Len(g) |-> CScale(lam - phi[k], g[k])])      \* den lam v
LqOut(m, phi, g) == MVec(m, [k \in 1..Len(g) |-> CScale(phi[k], g[k])])                \* den lam q
RECURSIVE LqSum(_, _, _)
LqSum(phi, g, k) == IF k = 0 THEN 0 ELSE LqSum(phi, g, k - 1) + phi[k] * Abs2(g[k])
LqZ(phi, g, lam) == lam - LqSum(phi, g, Len(g))
(* lam^2 |q|^2 in the hard case: t is the squared length along the top        *)
RECURSIVE LqHardSize(_, _, _)
LqHardSize(phi, g, k) == IF k = 0 THEN 0 ELSE LqHardSize(phi, g, k - 1) + phi[k] * phi[k] * Abs2(g[k])
LqHardLength(it) == LqHardSize(it.phi, it.g, Len(it.g)) + it.t * it.lam
=============================================================================
