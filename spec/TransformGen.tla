----------------------------- MODULE TransformGen -----------------------------
EXTENDS Transform, Json
CONSTANTS Cases
R(S) == TLCEval(RandomElement(S))
Num(k, cplx) == IF cplx THEN TLCEval(<<R(-k..k), R(-k..k)>>) ELSE TLCEval(<<R(-k..k), 0>>)
RECURSIVE RandX(_, _, _)
RandX(n, t, cplx) ==
    Bind([c \in 1..n |-> TLCEval([i \in 1..t |-> Num(IF n = 4 THEN 2 ELSE 3, cplx)])], LAMBDA X : IF FullRank(X) THEN X ELSE RandX(n, t, cplx))
PermsOf(t) == {q \in [1..t -> 1..t] : {q[i] : i \in 1..t} = 1..t}
Case(i) ==
    LET kind == R({"r2", "r3", "c3", "c4"}) n == R(1..4) t == n + R(1..2)
        cplx == kind \in {"c3", "c4"}
        nb == IF kind \in {"c3", "c4"} THEN R(1..3) ELSE 1   \* bins
        na == IF kind \in {"r3", "c4"} THEN R(1..3) ELSE 1   \* batch
    IN Bind([a \in 1..na |-> TLCEval([b \in 1..nb |-> RandX(n, t, cplx)])], LAMBDA X :
       [id |-> i, kind |-> kind, n |-> n, t |-> t, X |-> X,
        p |-> R(PermsOf(t)), ascend |-> R({0, 1}),
        det |-> TLCEval([a \in 1..na |-> TLCEval([b \in 1..nb |-> Det(Cov(X[a][b]))[1]])])])
VARIABLE out
GInit == out = 1
GNext == out <= Cases /\ out' = out + 1 /\ PrintT("@@CASE " \o ToJson(TLCEval(Case(out))))
GSpec == GInit /\ [][GNext]_out
=============================================================================
