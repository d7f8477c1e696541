------------------------------ MODULE ScaleGen ------------------------------
(* Random scale-restoration problems whose exact answers are Gaussian        *)
(* integers: filters of unit determinant (one per bin), mixtures, unimodular *)
(* signals, and the reference channel asked for.                             *)
EXTENDS Scale, TLC, Json
CONSTANTS Cases, MaxN, Steps
Shear(n, i, j, c) == [a \in 1..n |-> [b \in 1..n |-> IF a = b THEN One ELSE IF a = i /\ b = j THEN c ELSE Zero]]
PermSet(n) == {p \in [1..n -> 1..n] : {p[i] : i \in 1..n} = 1..n}
Elementary(n) ==
    Bind(RandomElement(1..n), LAMBDA i :
    Bind(RandomElement((1..n) \ {i}), LAMBDA j :
    Bind(RandomElement({<<1, 0>>, <<-1, 0>>, <<0, 1>>, <<0, -1>>, <<1, 1>>}), LAMBDA c : TLCEval(Shear(n, i, j, c)))))
RECURSIVE Product(_, _)
Product(n, k) == IF k = 0 THEN Bind(RandomElement(PermSet(n)), LAMBDA p : TLCEval(PermM(p)))
                 ELSE Bind(Product(n, k - 1), LAMBDA P : Bind(Elementary(n), LAMBDA M : MMul(M, P)))
RandNum(k) == TLCEval(<<TLCEval(RandomElement(-k..k)), TLCEval(RandomElement(-k..k))>>)
RandMix(n, t) == TLCEval([c \in 1..n |-> TLCEval([i \in 1..t |-> RandNum(3)])])
RandUnit(n, t) == TLCEval([c \in 1..n |-> TLCEval([i \in 1..t |-> TLCEval(RandomElement(Units))])])
FullRank(Z) == Det(MMul(Z, Herm(Z))) # Zero
RECURSIVE Mixture(_, _)
Mixture(n, t) == Bind(RandMix(n, t), LAMBDA Z : IF FullRank(Z) THEN Z ELSE Mixture(n, t))
Case(i) ==
    LET n == TLCEval(RandomElement(2..MaxN))
        nb == TLCEval(RandomElement(1..3))
        t == TLCEval(n + RandomElement(1..3))
    IN [id |-> i, n |-> n, nb |-> nb, t |-> t,
        ref |-> RandomElement((0..(n - 1)) \cup {-1, -2}), \* -2: every channel, stacked
        W |-> TLCEval([b \in 1..nb |-> TLCEval(Product(n, TLCEval(RandomElement(2..Steps))))]),
        X |-> TLCEval([b \in 1..nb |-> TLCEval(Mixture(n, t))]),
        U |-> TLCEval([b \in 1..nb |-> TLCEval(RandUnit(n, t))])]
VARIABLE out
GInit == out = 1 /\ W = None /\ D = None /\ ref = 0 /\ X = None /\ y = None /\ x = None
GNext == out <= Cases /\ out' = out + 1 /\ UNCHANGED vars /\ PrintT("@@CASE " \o ToJson(TLCEval(Case(out))))
GSpec == GInit /\ [][GNext]_<<vars, out>>
=============================================================================
