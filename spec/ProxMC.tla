------------------------------- MODULE ProxMC -------------------------------
(* The proximal point iteration x' = prox(x) over small exact domains: each   *)
(* step is the minimizer, soft thresholding reaches zero and stays there, the *)
(* logarithmic ones grow forever.                                             *)
EXTENDS Prox
CONSTANTS MaxX, MaxMu
VARIABLES kind, x, mu, prev, n
mvars == <<kind, x, mu, prev, n>>
\* "abs": an integer; "len": twice-scaled multiple of a 3-4-5 vector given by its length; "log": integer
MInit == /\ kind \in {"abs", "log", "det"} /\ mu \in 1..MaxMu /\ n = 0 /\ prev = 0
         /\ x \in (CASE kind = "abs" -> -MaxX..MaxX [] kind = "log" -> {LogArg(p, mu) : p \in LogPoints(mu)}
                     [] kind = "det" -> [1..2 -> {p \in LogPoints(mu) : TRUE}])
Soft(v) == IF v > 0 THEN Pos(v - mu) ELSE -Pos(-v - mu)
MNext == /\ n < 6 /\ kind = "abs" /\ n' = n + 1 /\ prev' = x /\ x' = Soft(x) /\ UNCHANGED <<kind, mu>>
MSpec == MInit /\ [][MNext]_mvars
AbsV(v) == IF v < 0 THEN -v ELSE v
Minimizer == kind = "abs" => \A c \in -(MaxX + 2)..(MaxX + 2) :
    LET p == Soft(x) IN 2 * mu * AbsV(p) + (p - x) * (p - x) <= 2 * mu * AbsV(c) + (c - x) * (c - x)
UniqueMinimizer == kind = "abs" => \A c \in -(MaxX + 2)..(MaxX + 2) :
    LET p == Soft(x) IN 2 * mu * AbsV(p) + (p - x) * (p - x) = 2 * mu * AbsV(c) + (c - x) * (c - x) => c = p
Shrinks == [][AbsV(x') <= AbsV(x) /\ AbsV(x' - x) <= mu /\ (x = 0 => x' = 0)]_mvars
Reaches == (kind = "abs" /\ n * mu >= MaxX) => x = 0
LogRoot == kind = "log" => Cardinality({p \in 1..(mu + MaxX) : IsLogProx(p, x, mu)}) = 1
(* stationarity of the matrix version: (P - X) P^H = mu I (times the scale)   *)
Us == {Base2[1], Base2[2], Base2C[1]}
DetStationary == kind = "det" => \A U \in Us, V \in Us :
    LET P == DetOut(U.m, x, V.m) X == DetIn(U.m, x, V.m, mu) s == U.den * U.den * V.den * V.den * mu
    IN MMul(MSub(P, X), Herm(P)) = <<<<<<s, 0>>, Zero>>, <<Zero, <<s, 0>>>>>>
=============================================================================
