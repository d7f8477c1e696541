-------------------------------- MODULE Prox --------------------------------
(* Proximal operators: prox(x) minimizes penalty(p) + |p - x|^2 / (2 mu).     *)
(* Soft thresholding scales a vector of length m by (m - mu)/m, so with m as  *)
(* the denominator everything is a Gaussian integer.                          *)
EXTENDS Unitary
Pos(k) == IF k > 0 THEN k ELSE 0
\* group (sequence of numbers) of integer length m: m * prox
ShrinkTimes(g, m, mu) == [k \in 1..Len(g) |-> CScale(Pos(m - mu), g[k])]
RECURSIVE Len2To(_, _)
Len2To(g, k) == IF k = 0 THEN 0 ELSE Len2To(g, k - 1) + Abs2(g[k])
Len2(g) == Len2To(g, Len(g))
\* the positive root p of p (p - x) = mu, for arguments with an integer one
IsLogProx(p, x, mu) == p > 0 /\ p * (p - x) = mu
LogPoints(mu) == {p \in 1..mu : mu % p = 0 /\ p * p >= mu}
LogArg(p, mu) == p - mu \div p
\* matrices: U and V integer multiples of unitary matrices
Weighted(U, d, V) == Bind(MMul(U, DiagM([k \in 1..Len(d) |-> <<d[k], 0>>])), LAMBDA P : MMul(P, V))
DetIn(U, p, V, mu) == Weighted(U, [k \in 1..Len(p) |-> LogArg(p[k], mu)], V)
DetOut(U, p, V) == Weighted(U, p, V)
=============================================================================
