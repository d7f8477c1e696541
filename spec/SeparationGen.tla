----------------------------- MODULE SeparationGen -----------------------------
(* Mixings, sign designs, assignments of sources to outputs.                      *)
EXTENDS Separation, Json
CONSTANTS Rounds
VARIABLE out
R(S) == TLCEval(RandomElement(S))
Bind(v, F(_)) == CHOOSE r \in {F(w) : w \in {v}} : TRUE
CMul(a, b) == <<a[1] * b[1] - a[2] * b[2], a[1] * b[2] + a[2] * b[1]>>
CAdd(a, b) == <<a[1] + b[1], a[2] + b[2]>>
RECURSIVE Dot(_, _, _, _, _)
Dot(A, B, i, j, k) == IF k = 0 THEN <<0, 0>> ELSE CAdd(CMul(A[i][k], B[k][j]), Dot(A, B, i, j, k - 1))
Mat(A, B, n) == TLCEval([i \in 1..n |-> [j \in 1..n |-> Dot(A, B, i, j, n)]])
Small(real) == IF real THEN {<<0, 0>>, <<1, 0>>, <<-1, 0>>, <<2, 0>>} ELSE {<<0, 0>>, <<1, 0>>, <<-1, 0>>, <<0, 1>>, <<0, -1>>, <<1, 1>>, <<1, -1>>}
Units(real) == IF real THEN {<<1, 0>>, <<-1, 0>>} ELSE {<<1, 0>>, <<-1, 0>>, <<0, 1>>, <<0, -1>>}
Lower(n, real) == TLCEval([i \in 1..n |-> [j \in 1..n |-> IF i = j THEN R(Units(real)) ELSE IF j < i THEN R(Small(real)) ELSE <<0, 0>>]])
Upper(n, real) == TLCEval([i \in 1..n |-> [j \in 1..n |-> IF i = j THEN R(Units(real)) ELSE IF j > i THEN R(IF i = 1 THEN Small(real) \ {<<0, 0>>} ELSE Small(real)) ELSE <<0, 0>>]])
Turn(n, i, j) == TLCEval([a \in 1..n |-> [b \in 1..n |->
    IF a = b THEN (IF a \in {i, j} THEN <<3, 0>> ELSE <<5, 0>>) ELSE IF a = i /\ b = j THEN <<-4, 0>> ELSE IF a = j /\ b = i THEN <<4, 0>> ELSE <<0, 0>>]])
Phases(n, real) == TLCEval([i \in 1..n |-> [j \in 1..n |-> IF i = j THEN R(Units(real)) ELSE <<0, 0>>]])
Affine(n, real) == Bind(Lower(n, real), LAMBDA L : Bind(Upper(n, real), LAMBDA U : Mat(L, U, n)))
Five(n) == TLCEval([i \in 1..n |-> [j \in 1..n |-> IF i = j THEN <<5, 0>> ELSE <<0, 0>>]])
Unitary(n, real) == Bind(Phases(n, real), LAMBDA P : Bind(Mat(Turn(n, 1, n), P, n), LAMBDA M : Mat(M, IF n = 2 THEN Five(n) ELSE Turn(n, 1, 2), n)))  \* over 25
RECURSIVE Gram(_, _, _, _)
Gram(A, i, j, k) == IF k = 0 THEN <<0, 0>> ELSE CAdd(CMul(A[i][k], <<A[j][k][1], -A[j][k][2]>>), Gram(A, i, j, k - 1))
IsUnitary(A, n) == \A i, j \in 1..n : Gram(A, i, j, n) = IF i = j THEN <<625, 0>> ELSE <<0, 0>>
H4 == << <<1, 1, 1, 1>>, <<1, -1, 1, -1>>, <<1, 1, -1, -1>>, <<1, -1, -1, 1>> >>
H2 == << <<1, 1>>, <<1, -1>> >>
PermOf(n) == R({p \in [1..n -> 1..n] : \A i, j \in 1..n : i # j => p[i] # p[j]})
Kinds == <<"affine", "unitary", "realaffine", "realunitary">>
Case(i) == LET kind == Kinds[((i - 1) % 4) + 1] n == R({2, 3}) IN
    LET real == kind \in {"realaffine", "realunitary"} uni == kind \in {"unitary", "realunitary"} IN
    LET bins == IF real THEN 1 ELSE 4 rows == PermOf(4) flat == TLCEval(n = 2 /\ R({TRUE, FALSE})) IN
    [id |-> i, kind |-> kind, n |-> n, real |-> IF real THEN 1 ELSE 0, unitary |-> IF uni THEN 1 ELSE 0,
     A |-> TLCEval([b \in 1..bins |-> IF uni THEN Unitary(n, real) ELSE Affine(n, real)]), den |-> IF uni THEN 25 ELSE 1,
     signs |-> IF flat THEN (IF R({TRUE, FALSE}) THEN H2 ELSE <<H2[2], H2[1]>>) ELSE [k \in 1..n |-> H4[rows[k]]],
     perm |-> PermOf(n), scales |-> TLCEval([k \in 1..n |-> R(2..6)]), base |-> R({12, 17, 22}), iter |-> R(1..4)]
GInit == out = 1 /\ base = 0 /\ design = 0 /\ own0 = 0 /\ own = 0 /\ scale = 0 /\ row = 0 /\ at = 0 /\ acc = 0 /\ cross = 0 /\ sweep = 0 /\ mixed = 0
Orthogonal(s) == \A i, j \in 1..Len(s) : i # j => Inner(s[i], s[j], Len(s[1])) = 0
GNext == out <= Rounds /\ out' = out + 1 /\ UNCHANGED svars
         /\ LET c == TLCEval(Case(out)) IN Assert(Orthogonal(c.signs) /\ (c.unitary = 1 => \A b \in 1..Len(c.A) : IsUnitary(c.A[b], c.n))
                   /\ \A b \in 1..Len(c.A), j \in 1..c.n : c.A[b][1][j] # <<0, 0>>, "case") /\ PrintT("@@CASE " \o ToJson(c))
GSpec == GInit /\ [][GNext]_<<svars, out>>
================================================================================
