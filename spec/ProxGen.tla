------------------------------- MODULE ProxGen -------------------------------
EXTENDS Prox, Json
CONSTANTS Cases
R(S) == TLCEval(RandomElement(S))
\* groups of integer length (before rephasing)
Groups(n) ==
    CASE n = 1 -> {<<0>>, <<1>>, <<2>>, <<3>>, <<5>>}
      [] n = 2 -> {<<0, 0>>, <<0, 2>>, <<3, 4>>, <<6, 8>>, <<5, 12>>, <<1, 0>>}
      [] n = 3 -> {<<0, 0, 0>>, <<1, 2, 2>>, <<2, 3, 6>>, <<0, 3, 4>>, <<2, 4, 4>>, <<0, 0, 1>>}
      [] n = 4 -> {<<0, 0, 0, 0>>, <<1, 1, 1, 1>>, <<1, 1, 3, 5>>, <<2, 2, 2, 2>>, <<2, 4, 5, 6>>, <<0, 0, 3, 4>>, <<1, 5, 5, 7>>}
RootOf(k) == CHOOSE m \in 0..60 : m * m = k
RandGroup(n, cplx) ==
    Bind(R(Groups(n)), LAMBDA g :
    Bind(R(UPerms(n)), LAMBDA p : TLCEval([k \in 1..n |-> CMul(R(UPhases(cplx)), <<g[p[k]], 0>>)])))
Flag(b) == IF b THEN 1 ELSE 0
\* single numbers of integer modulus
Singles(cplx) == IF cplx THEN {<<0, 0>>, <<3, 4>>, <<-4, 3>>, <<0, -2>>, <<5, -12>>, <<-8, 6>>, <<1, 0>>, <<0, 3>>} ELSE {<<0, 0>>, <<1, 0>>, <<-3, 0>>, <<4, 0>>, <<-7, 0>>}
L1Case(i) ==
    LET cplx == R({TRUE, FALSE}) IN
    [id |-> i, kind |-> "l1", cplx |-> Flag(cplx), mu |-> R(1..5), x |-> TLCEval([k \in 1..12 |-> R(Singles(cplx))])]
\* x[a][b] is a group
L21Case(i) ==
    LET cplx == R({TRUE, FALSE}) n == R(1..4) p == R(1..3) q == R(1..3) IN
    [id |-> i, kind |-> "l21", cplx |-> Flag(cplx), mu |-> R(1..5), axis |-> R(0..2),
     x |-> TLCEval([a \in 1..p |-> TLCEval([b \in 1..q |-> RandGroup(n, cplx)])])]
LogCase(i) ==
    LET mu == R({1, 2, 4, 6, 12, 24}) IN
    [id |-> i, kind |-> "log", mu |-> mu, p |-> TLCEval([k \in 1..12 |-> R(LogPoints(mu))])]
DetCase(i) ==
    LET cplx == R({TRUE, FALSE}) n == R(1..4) nb == R(1..3) mu == R({2, 4, 6, 12, 24}) IN
    Bind(RandBase(n, cplx), LAMBDA bu :
    Bind(RandBase(n, cplx), LAMBDA bv :
    Bind([b \in 1..nb |-> RandDressed(bu, cplx)], LAMBDA Us :
    Bind([b \in 1..nb |-> RandDressed(bv, cplx)], LAMBDA Vs :
    Bind([b \in 1..nb |-> TLCEval([k \in 1..n |-> R({q \in LogPoints(mu) : q * q > mu})])], LAMBDA ps :
    [id |-> i, kind |-> "det", cplx |-> Flag(cplx), mu |-> mu, den |-> bu.den * bv.den, U |-> Us, V |-> Vs, p |-> ps,
     X |-> TLCEval([b \in 1..nb |-> DetIn(Us[b], ps[b], Vs[b], mu)])])))))
Case(i) == CASE i % 4 = 0 -> L1Case(i) [] i % 4 = 1 -> L21Case(i) [] i % 4 = 2 -> LogCase(i) [] i % 4 = 3 -> DetCase(i)
VARIABLE out
GInit == out = 1
GNext == out <= Cases /\ out' = out + 1 /\ PrintT("@@CASE " \o ToJson(TLCEval(Case(out))))
GSpec == GInit /\ [][GNext]_out
=============================================================================
