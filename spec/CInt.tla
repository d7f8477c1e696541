-------------------------------- MODULE CInt --------------------------------
(* Exact complex-integer (Gaussian integer) linear algebra.  A number is     *)
(* <<re, im>>, a vector a sequence of numbers, a matrix a sequence of rows.  *)
EXTENDS Integers, Sequences, FiniteSets, TLC

Zero == <<0, 0>>
One == <<1, 0>>
Imag == <<0, 1>>
CAdd(a, b) == <<a[1] + b[1], a[2] + b[2]>>
CSub(a, b) == <<a[1] - b[1], a[2] - b[2]>>
CNeg(a) == <<-a[1], -a[2]>>
CMul(a, b) == <<a[1] * b[1] - a[2] * b[2], a[1] * b[2] + a[2] * b[1]>>
CScale(k, a) == <<k * a[1], k * a[2]>>
Conj(a) == <<a[1], -a[2]>>
Abs2(a) == a[1] * a[1] + a[2] * a[2]
(* Eager binding: the argument is evaluated once.                            *)
Bind(v, F(_)) == CHOOSE r \in {F(w) : w \in {v}} : TRUE
RECURSIVE CSumTo(_, _)
CSumTo(s, k) == IF k = 0 THEN Zero ELSE Bind(CSumTo(s, k - 1), LAMBDA w : CAdd(w, s[k]))
CSum(s) == Bind(TLCEval(s), LAMBDA w : CSumTo(w, Len(w)))
CDot(u, v) == CSum([i \in 1..Len(u) |-> CMul(u[i], v[i])])

NRows(A) == Len(A)
NCols(A) == Len(A[1])
Col(A, j) == [i \in 1..Len(A) |-> A[i][j]]
Transp(A) == TLCEval([j \in 1..NCols(A) |-> Col(A, j)])
Herm(A) == TLCEval([j \in 1..NCols(A) |-> [i \in 1..NRows(A) |-> Conj(A[i][j])]])
MMulT(A, BT) == TLCEval([i \in 1..Len(A) |-> [j \in 1..Len(BT) |-> CDot(A[i], BT[j])]])
MMul(A, B) == CHOOSE r \in {MMulT(AA, BT) : AA \in {A}, BT \in {Transp(B)}} : TRUE
MAdd(A, B) == [i \in 1..NRows(A) |-> [j \in 1..NCols(A) |-> CAdd(A[i][j], B[i][j])]]
MSub(A, B) == [i \in 1..NRows(A) |-> [j \in 1..NCols(A) |-> CSub(A[i][j], B[i][j])]]
MVec(A, v) == [i \in 1..NRows(A) |-> CDot(A[i], v)]
CMatScale1(c, A) == TLCEval([i \in 1..NRows(A) |-> [j \in 1..NCols(A) |-> CMul(c, A[i][j])]])
CMatScale(c, A) == CHOOSE r \in {CMatScale1(cc, AA) : cc \in {c}, AA \in {A}} : TRUE
Eye(n) == [i \in 1..n |-> [j \in 1..n |-> IF i = j THEN One ELSE Zero]]
DiagM(d) == [i \in 1..Len(d) |-> [j \in 1..Len(d) |-> IF i = j THEN d[i] ELSE Zero]]
PermM(p) == [i \in 1..Len(p) |-> [j \in 1..Len(p) |-> IF j = p[i] THEN One ELSE Zero]]
Trace1(A) == CSum([i \in 1..NRows(A) |-> A[i][i]])
Minor(A, r, c) == LET n == NRows(A) IN
    TLCEval([i \in 1..(n - 1) |-> [j \in 1..(n - 1) |-> A[IF i < r THEN i ELSE i + 1][IF j < c THEN j ELSE j + 1]]])
RECURSIVE Det1(_)
Det1(A) == IF NRows(A) = 1 THEN A[1][1]
           ELSE CSum([j \in 1..NRows(A) |->
                       IF A[1][j] = Zero THEN Zero
                       ELSE Bind(Bind(Minor(A, 1, j), LAMBDA M : Det1(M)),
                                 LAMBDA d : IF j % 2 = 1 THEN CMul(A[1][j], d) ELSE CNeg(CMul(A[1][j], d)))])
Det(A) == Bind(A, LAMBDA M : Det1(M))
(* adjugate: A * Adj(A) = Det(A) * I                                         *)
Adj1(A) == IF NRows(A) = 1 THEN <<<<One>>>>
           ELSE TLCEval([i \in 1..NRows(A) |-> [j \in 1..NRows(A) |->
                   Bind(Bind(Minor(A, j, i), LAMBDA M : Det1(M)), LAMBDA m : IF (i + j) % 2 = 0 THEN m ELSE CNeg(m))]])
Adj(A) == Bind(A, LAMBDA M : Adj1(M))
Units == {<<1, 0>>, <<0, 1>>, <<-1, 0>>, <<0, -1>>}
(* inverse of a matrix whose determinant is a unit                           *)
Inv(A) == Bind(A, LAMBDA M : CMatScale(Conj(Det1(M)), Adj1(M)))
IsHermitian(A) == \A i, j \in 1..NRows(A) : A[i][j] = Conj(A[j][i])
IsUnitary(A) == MMul(A, Herm(A)) = Eye(NRows(A))
=============================================================================
