------------------------------ MODULE LinAlgGen ------------------------------
EXTENDS LinAlg, Unimod, Json
CONSTANTS Cases, Steps
R(S) == TLCEval(RandomElement(S))
Num(k, cplx) == IF cplx THEN TLCEval(<<R(-k..k), R(-k..k)>>) ELSE TLCEval(<<R(-k..k), 0>>)
RandMat(p, c, k, cplx) == TLCEval([i \in 1..p |-> TLCEval([j \in 1..c |-> Num(k, cplx)])])
RECURSIVE Regular(_, _, _)
Regular(n, k, cplx) == Bind(RandMat(n, n, k, cplx), LAMBDA A : IF Det(A) # Zero THEN A ELSE Regular(n, k, cplx))
Flag(b) == IF b THEN 1 ELSE 0
InvCase(i) ==
    LET cplx == R({TRUE, FALSE}) nb == R(1..4) IN
    Bind([b \in 1..nb |-> Regular(2, 6, cplx)], LAMBDA As :
    [id |-> i, kind |-> "inv2", cplx |-> Flag(cplx), A |-> As, det |-> TLCEval([b \in 1..nb |-> Det(As[b])])])
SolveCase(i) ==
    LET cplx == R({TRUE, FALSE}) nb == R(1..4) n == R(1..4) k == R(1..3) IN
    Bind([b \in 1..nb |-> Regular(n, 3, cplx)], LAMBDA As :
    [id |-> i, kind |-> "solve", cplx |-> Flag(cplx), A |-> As, B |-> TLCEval([b \in 1..nb |-> RandMat(n, k, 5, cplx)]),
     vec |-> R({0, 1}), det |-> TLCEval([b \in 1..nb |-> Det(As[b])])])
FormCase(i) ==
    LET xc == R({TRUE, FALSE}) ac == R({TRUE, FALSE}) nb == R(1..4) n == R(1..4) IN
    [id |-> i, kind |-> "form", xc |-> Flag(xc), ac |-> Flag(ac), A |-> TLCEval([b \in 1..nb |-> RandMat(n, n, 5, ac)]),
     x |-> TLCEval([b \in 1..nb |-> RandMat(1, n, 5, xc)[1]])]
EigCase(i) ==
    LET cplx == R({TRUE, FALSE}) nb == R(1..3) n == R(1..4) kind == R(1..3) IN
    Bind([b \in 1..nb |-> RandUnimod(n, R(1..Steps), cplx)], LAMBDA Zs :
    Bind([b \in 1..nb |-> TLCEval([k \in 1..n |-> R(-4..6)])], LAMBDA ds :
    [id |-> i, kind |-> "eig", type |-> kind, cplx |-> Flag(cplx), den |-> 1, Z |-> Zs, d |-> ds,
     A |-> TLCEval([b \in 1..nb |-> EigA(kind, Zs[b], ds[b])]), B |-> TLCEval([b \in 1..nb |-> EigB(kind, Zs[b])])]))
PlainCase(i) ==
    LET cplx == R({TRUE, FALSE}) nb == R(1..3) n == R(1..4) IN
    Bind(RandBase(n, cplx), LAMBDA base :
    Bind([b \in 1..nb |-> RandDressed(base, cplx)], LAMBDA Zs :
    Bind([b \in 1..nb |-> TLCEval([k \in 1..n |-> R(-4..6)])], LAMBDA ds :
    [id |-> i, kind |-> "eig", type |-> 0, cplx |-> Flag(cplx), den |-> base.den, Z |-> Zs, d |-> ds,
     A |-> TLCEval([b \in 1..nb |-> EigA(0, Zs[b], ds[b])]), B |-> <<>>])))
RootCase(i) ==
    LET cplx == R({TRUE, FALSE}) nb == R(1..3) n == R(1..4) lo == R({0, 1}) IN
    Bind(RandBase(n, cplx), LAMBDA base :
    Bind([b \in 1..nb |-> RandDressed(base, cplx)], LAMBDA Zs :
    Bind([b \in 1..nb |-> TLCEval([k \in 1..n |-> R(lo..6)])], LAMBDA ds :
    [id |-> i, kind |-> "root", cplx |-> Flag(cplx), den |-> base.den, m |-> Zs, d |-> ds,
     A |-> TLCEval([b \in 1..nb |-> RootIn(Zs[b], ds[b])])])))
InvRootCase(i) ==
    LET cplx == R({TRUE, FALSE}) nb == R(1..3) n == R(1..4) IN
    Bind(RandBase(n, cplx), LAMBDA base :
    Bind([b \in 1..nb |-> RandDressed(base, cplx)], LAMBDA Zs :
    Bind([b \in 1..nb |-> TLCEval([k \in 1..n |-> R({1, 2, 3, 4, 6, 12})])], LAMBDA ds :
    [id |-> i, kind |-> "invroot", cplx |-> Flag(cplx), den |-> base.den, m |-> Zs, d |-> ds, floor |-> R({0, 0, 2, 3}),
     A |-> TLCEval([b \in 1..nb |-> RootIn(Zs[b], ds[b])])])))
MeanCase(i) ==
    LET cplx == R({TRUE, FALSE}) nb == R(1..3) n == R(1..3) kind == R(1..3) IN
    Bind([b \in 1..nb |-> RandUnimod(n, R(1..Steps), cplx)], LAMBDA Zs :
    Bind([b \in 1..nb |-> TLCEval([k \in 1..n |-> R(1..5)])], LAMBDA ds :
    [id |-> i, kind |-> "mean", type |-> kind, cplx |-> Flag(cplx), Z |-> Zs, d |-> ds,
     A |-> TLCEval([b \in 1..nb |-> MeanA(kind, Zs[b], ds[b])]), B |-> TLCEval([b \in 1..nb |-> MeanB(kind, Zs[b], ds[b])])]))
CbrtCase(i) ==
    LET cplx == R({TRUE, FALSE}) IN
    Bind([k \in 1..6 |-> Num(6, cplx)], LAMBDA w :
    [id |-> i, kind |-> "cbrt", cplx |-> Flag(cplx), w |-> w, x |-> TLCEval([k \in 1..6 |-> CMul(w[k], CMul(w[k], w[k]))])])
CubicRoots(cplx, mult) ==
    Bind(Num(6, cplx), LAMBDA a :
    Bind(IF mult = 3 THEN a ELSE Num(6, cplx), LAMBDA b :
    Bind(IF mult >= 2 THEN b ELSE Num(6, cplx), LAMBDA c : TLCEval(<<a, b, c>>))))
CubicCase(i) ==
    LET cplx == R({TRUE, FALSE}) nb == R(1..4) mult == R({1, 1, 1, 2, 3}) lead == R({0, 1}) IN
    Bind([b \in 1..nb |-> CubicRoots(cplx, mult)], LAMBDA rs :
    Bind([b \in 1..nb |-> IF lead = 1 THEN R({<<1, 0>>, <<-2, 0>>, <<3, 0>>} \cup (IF cplx THEN {<<1, 1>>, <<0, -2>>} ELSE {})) ELSE One], LAMBDA as :
    [id |-> i, kind |-> "cubic", cplx |-> Flag(cplx), lead |-> lead, r |-> rs, a |-> as,
     c |-> TLCEval([b \in 1..nb |-> Cubic(as[b], rs[b])])]))
(* LQPQM: multiplier large enough for z >= 0 and lam > max phi               *)
MaxOf(s) == CHOOSE x \in {s[k] : k \in 1..Len(s)} : \A k \in 1..Len(s) : s[k] <= x
LqOne(n, cplx, base) ==
    Bind(RandDressed(base, cplx), LAMBDA m :
    Bind([k \in 1..n |-> R(1..9)], LAMBDA phi :
    Bind([k \in 1..n |-> R({Num(1, cplx), Num(2, cplx), Num(1, cplx)})], LAMBDA g0 :
    Bind(IF \A k \in 1..n : g0[k] = Zero THEN [k \in 1..n |-> One] ELSE
         [k \in 1..n |-> IF phi[k] = MaxOf(phi) /\ g0[k] = Zero THEN One ELSE g0[k]], LAMBDA g :
    Bind((IF LqSum(phi, g, n) > MaxOf(phi) THEN LqSum(phi, g, n) ELSE MaxOf(phi)) + R({1, 1, 2, 5}), LAMBDA lam :
    [m |-> m, phi |-> phi, g |-> g, lam |-> lam, z |-> LqZ(phi, g, lam),
     H |-> Conjugated(m, phi), v |-> TLCEval(LqIn(m, phi, g, lam))])))))
LqCase(i) ==
    LET cplx == R({TRUE, FALSE}) nb == R(1..4) n == R(1..4) IN
    Bind(RandBase(n, cplx), LAMBDA base :
    [id |-> i, kind |-> "lq", cplx |-> Flag(cplx), n |-> n, den |-> base.den, items |-> TLCEval([b \in 1..nb |-> LqOne(n, cplx, base)])])
(* v = 0: largest eigenvalue s^2 (simple), z = s^2 - t^2, |q|^2 = t^2 / s^2   *)
LqZeroCase(i) ==
    LET nb == R(1..4) n == R(1..4) IN
    Bind(RandBase(n, TRUE), LAMBDA base :
    Bind([b \in 1..nb |-> RandDressed(base, TRUE)], LAMBDA ms :
    Bind([b \in 1..nb |-> TLCEval(<<R(1..n), R(2..5)>>)], LAMBDA ks :
    Bind([b \in 1..nb |-> TLCEval([k \in 1..n |-> IF k = ks[b][1] THEN ks[b][2] * ks[b][2] ELSE R(0..(ks[b][2] * ks[b][2] - 1))])], LAMBDA phis :
    Bind([b \in 1..nb |-> R(0..ks[b][2])], LAMBDA ts :
    [id |-> i, kind |-> "lqzero", n |-> n, den |-> base.den, m |-> ms, top |-> TLCEval([b \in 1..nb |-> ks[b][1]]),
     s |-> TLCEval([b \in 1..nb |-> ks[b][2]]), t |-> ts, phi |-> phis, above |-> R({0, 0, 0, 3}),
     H |-> TLCEval([b \in 1..nb |-> Conjugated(ms[b], phis[b])])])))))
(* v orthogonal to the eigenvector of the largest eigenvalue s^2, but the      *)
(* minimizer is not: lam = s^2                                               *)
LqHardOne(n, base) ==
    Bind(RandDressed(base, TRUE), LAMBDA m :
    Bind(<<R(1..n), R(3..6)>>, LAMBDA ts :
    Bind([k \in 1..n |-> IF k = ts[1] THEN ts[2] * ts[2] ELSE R(1..2)], LAMBDA phi :
    Bind([k \in 1..n |-> IF k = ts[1] THEN Zero ELSE R({<<1, 0>>, <<0, 1>>, <<-1, 0>>})], LAMBDA g :
    Bind(R(1..((ts[2] * ts[2] - LqSum(phi, g, n)) \div 3)), LAMBDA t :  \* t stands for the squared length along the top
    [m |-> m, phi |-> phi, g |-> g, lam |-> ts[2] * ts[2], t |-> t, z |-> ts[2] * ts[2] - LqSum(phi, g, n) - t,
     H |-> Conjugated(m, phi), v |-> TLCEval(LqIn(m, phi, g, ts[2] * ts[2]))])))))
LqHardCase(i) ==
    LET nb == R(1..3) n == R(2..3) IN
    Bind(RandBase(n, TRUE), LAMBDA base :
    [id |-> i, kind |-> "lqhard", n |-> n, den |-> base.den, items |-> TLCEval([b \in 1..nb |-> LqHardOne(n, base)])])
Case(i) ==
    CASE i % 70 = 13 -> LqHardCase(i) [] i % 14 = 0 -> InvCase(i) [] i % 14 = 1 -> SolveCase(i) [] i % 14 = 2 -> FormCase(i)
      [] i % 14 \in {3, 4, 5} -> EigCase(i) [] i % 14 = 6 -> PlainCase(i) [] i % 14 = 7 -> RootCase(i)
      [] i % 14 = 8 -> InvRootCase(i) [] i % 14 = 9 -> MeanCase(i) [] i % 14 = 10 -> CbrtCase(i)
      [] i % 14 = 11 -> CubicCase(i) [] i % 14 = 12 -> LqCase(i) [] i % 14 = 13 -> LqZeroCase(i)
VARIABLE out
GInit == out = 1
GNext == out <= Cases /\ out' = out + 1 /\ PrintT("@@CASE " \o ToJson(TLCEval(Case(out))))
GSpec == GInit /\ [][GNext]_out
=============================================================================
