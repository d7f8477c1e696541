------------------------------ MODULE SpecialGen ------------------------------
EXTENDS Special, Json
CONSTANTS Cases, MaxSide, MaxE
R(S) == TLCEval(RandomElement(S))
SoftCase(i) ==
    LET d1 == R(1..MaxSide) d2 == R(1..MaxSide) d3 == R(1..MaxSide)
    IN Bind([a \in 1..d1 |-> TLCEval([b \in 1..d2 |-> TLCEval([c \in 1..d3 |-> R(1..MaxE)])])], LAMBDA E :
       Bind(R(SUBSET (1..3)), LAMBDA A :
       [id |-> i, kind |-> "soft", E |-> E, axes |-> A, S |-> GroupSums(E, A)]))
FloorCase(i) ==
    [id |-> i, kind |-> "floor", x |-> TLCEval([k \in 1..6 |-> R(-40..40)]), eps |-> R(-10..20)]
PsdCase(i) ==
    LET n == R(1..4) cplx == R({TRUE, FALSE}) nb == R(1..3)
    IN Bind(RandBase(n, cplx), LAMBDA base :
       Bind([b \in 1..nb |-> RandDressed(base, cplx)], LAMBDA ms :
       Bind([b \in 1..nb |-> TLCEval([k \in 1..n |-> R(-6..9)])], LAMBDA ds :
       Bind([b \in 1..nb |-> TLCEval([r \in 1..n |-> TLCEval([c \in 1..n |-> IF cplx THEN <<R(-5..5), R(-5..5)>> ELSE <<R(-5..5), 0>>])])], LAMBDA Ls :
       Bind([b \in 1..nb |-> TLCEval(MSub(Ls[b], Herm(Ls[b])))], LAMBDA Ks :
       [id |-> i, kind |-> "psd", n |-> n, cplx |-> IF cplx THEN 1 ELSE 0, den |-> base.den, m |-> ms, d |-> ds,
        floor |-> R({"none", "max", "add"}), eps |-> R(1..4), anti |-> R({0, 1}), K |-> Ks,
        X |-> TLCEval([b \in 1..nb |-> Conjugated(ms[b], ds[b])])])))))
ChooseCase(i) == [id |-> i, kind |-> "choose", asked |-> R({"own", "none", "self", "bad"}), owner |-> R({"absent", "without", "with"})]
Case(i) == CASE i % 8 \in {0, 1, 2} -> SoftCase(i) [] i % 8 = 3 -> FloorCase(i) [] i % 8 = 4 -> ChooseCase(i) [] OTHER -> PsdCase(i)
VARIABLE out
GInit == out = 1
GNext == out <= Cases /\ out' = out + 1 /\ PrintT("@@CASE " \o ToJson(TLCEval(Case(out))))
GSpec == GInit /\ [][GNext]_out
=============================================================================
