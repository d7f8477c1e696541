----------------------------- MODULE UpdateRules -----------------------------
(* The update rules as exact algebra.                                         *)
(*  IP1  row n becomes the direction w_n with (W U_n) w_n = e_n, so it is      *)
(*       U_n-orthogonal to every other row in force at that moment             *)
(*  ISS1 signal k becomes d_k y_k - c_k y_n, uncorrelated with y_n under the   *)
(*       weight of source k                                                   *)
(*  GRAD filter moves by a multiple of g (plain) or g W^H W (natural); in the  *)
(*       coordinates M = g W^H the nonholonomic form removes the diagonal      *)
(* Rows are integer directions: normalisation multiplies by 1/sqrt(w U w^H).   *)
EXTENDS CInt
CONSTANTS N, Entries, CovEntries, Weights, Modes, Frames, Samples
VARIABLES mode, W, U, was, k, Y, phi, M
uvars == <<mode, W, U, was, k, Y, phi, M>>

HermPD == {A \in [1..N -> [1..N -> CovEntries]] :
             /\ IsHermitian(A) /\ A[1][1][1] > 0 /\ Det(A)[1] > 0
             /\ (N = 3 => CSub(CMul(A[1][1], A[2][2]), CMul(A[1][2], A[2][1]))[1] > 0)}
Covs == {A \in HermPD : \A i \in 1..N : A[i][i][1] <= 2}
Filters == {A \in [1..N -> [1..N -> Entries]] : Det(A) # Zero}
RowConj(r) == [i \in 1..Len(r) |-> Conj(r[i])]
(* w U v^H for rows w and v *)
Form(w, A, v) == CDot(w, MVec(A, RowConj(v)))
UnitVec(n) == [i \in 1..N |-> IF i = n THEN One ELSE Zero]

IP1Row(A, cov, n) == \* the conjugate of Adj(A cov) e_n
    Bind(Adj(MMul(A, cov)), LAMBDA B : [i \in 1..N |-> Conj(B[i][n])])
WSum(p, a, b) == CSum([t \in 1..Frames |-> CScale(p[t], CMul(a[t], Conj(b[t])))])
SteerAll(Z, p, n) ==
    [s \in 1..N |-> IF s = n THEN Z[n]
        ELSE Bind(WSum(p[s], Z[s], Z[n]), LAMBDA c : Bind(WSum(p[s], Z[n], Z[n])[1], LAMBDA d :
             [t \in 1..Frames |-> CSub(CScale(d, Z[s][t]), CMul(c, Z[n][t]))]))]
OffDiag(A) == [i \in 1..N |-> [j \in 1..N |-> IF i = j THEN Zero ELSE A[i][j]]]

UInit ==
    /\ mode \in Modes /\ k = 0
    /\ IF mode = "ip1"
       THEN /\ W \in Filters /\ was = W /\ U \in [1..N -> Covs] /\ Y = <<>> /\ phi = <<>> /\ M = <<>>
       ELSE IF mode = "iss1"
       THEN /\ W = <<>> /\ was = <<>> /\ U = <<>> /\ M = <<>>
            /\ Y \in {Z \in [1..N -> [1..Frames -> Samples]] : \A s \in 1..N : \E t \in 1..Frames : Z[s][t] # Zero}
            /\ phi \in [1..N -> [1..Frames -> Weights]]
       ELSE /\ W \in Filters /\ was = W /\ U = <<>> /\ Y = <<>> /\ phi = <<>>
            /\ M \in [1..N -> [1..N -> Entries]]
UIP1 == /\ mode = "ip1" /\ k < N /\ k' = k + 1
        /\ W' = [W EXCEPT ![k + 1] = IP1Row(W, U[k + 1], k + 1)]
        /\ UNCHANGED <<mode, U, was, Y, phi, M>>
UISS1 == /\ mode = "iss1" /\ k < N /\ k' = k + 1
         /\ Y' = SteerAll(Y, phi, k + 1) /\ UNCHANGED <<mode, W, U, was, phi, M>>
UNext == UIP1 \/ UISS1
USpec == UInit /\ [][UNext]_uvars

(* immediately after its update a row is orthogonal to every other row         *)
IP1Now == mode = "ip1" /\ k > 0 => \A j \in 1..N \ {k} : Form(W[j], U[k], W[k]) = Zero
(* after the sweep: new rows before it, rows as they were after it             *)
IP1Sweep == mode = "ip1" => \A n \in 1..k : \A j \in 1..N \ {n} :
               Form(IF j < n THEN W[j] ELSE was[j], U[n], W[n]) = Zero
IP1Alive == mode = "ip1" => Det(W) # Zero /\ \A n \in 1..k : Form(W[n], U[n], W[n])[1] > 0
(* the determinant is the product of the step factors: w_n is the only change  *)
ISS1Now == [][UISS1 => \A s \in 1..N \ {k + 1} : WSum(phi[s], Y'[s], Y[k + 1]) = Zero]_uvars
(* plain and natural steps with the same M: natural = plain * W^H W            *)
GradForms == mode = "grad" =>
    \* with g = M W^-H: multiply everything by Det(W)^* to stay integral
    LET g == MMul(M, Herm(Adj(W))) d == Conj(Det(W)) IN
    /\ MMul(g, Herm(W)) = CMatScale(d, M)
    /\ MMul(MMul(g, Herm(W)), W) = CMatScale(d, MMul(M, W))
    /\ LET h == MMul(OffDiag(M), Herm(Adj(W))) IN
         LET D == MMul(MSub(g, h), Herm(W)) IN
         \A i, j \in 1..N : i # j => D[i][j] = Zero

(* ------------------- which measured residuals have to vanish, by rule ------ *)
Tol == 1000000   \* in units of 1e-12
Idx(e) == 1..e.n
Small(v) == v <= Tol
RuleBad(e) ==
    CASE e.rule \in {"ip1", "vcd"} ->
            (IF \E i, j \in Idx(e) : i # j /\ ~Small(IF j < i THEN e.new[i][j] ELSE e.old[i][j]) THEN {"not-orthogonal"} ELSE {})
            \cup (IF \E i \in Idx(e) : ~Small(e.norm[i]) THEN {"not-normalized"} ELSE {})
      [] e.rule = "ip2" ->
            LET P == {e.pair[1], e.pair[2]} IN
            (IF \E i \in P, j \in Idx(e) : i # j /\ ~Small(e.new[i][j]) THEN {"not-orthogonal"} ELSE {})
            \cup (IF \E i \in P : ~Small(e.norm[i]) THEN {"not-normalized"} ELSE {})
            \cup (IF \E i \in Idx(e) \ P : e.moved[i] > 0 THEN {"other-row-changed"} ELSE {})
            \cup (IF Small(e.worse) THEN {} ELSE {"not-the-better-solution"})
      [] e.rule = "iss1" ->
            (IF \E i, j \in Idx(e) : i # j /\ ~Small(e.new[i][j]) THEN {"not-uncorrelated"} ELSE {})
            \cup (IF \E i \in Idx(e) : ~Small(e.norm[i]) THEN {"not-normalized"} ELSE {})
            \cup (IF Small(e.rest) THEN {} ELSE {"not-a-product-of-steering-steps"})
      [] e.rule = "iss2" ->
            LET P == {e.pair[1], e.pair[2]} IN
            (IF \E i \in P, j \in Idx(e) \ P : ~Small(e.old[i][j]) THEN {"not-uncorrelated"} ELSE {})
            \cup (IF \E i, j \in P : i # j /\ ~Small(e.new[i][j]) THEN {"not-orthogonal"} ELSE {})
            \cup (IF \E i \in P : ~Small(e.norm[i]) THEN {"not-normalized"} ELSE {})
            \cup (IF Small(e.rest) THEN {} ELSE {"other-row-changed"})
            \cup (IF Small(e.worse) THEN {} ELSE {"not-the-better-solution"})
      [] e.rule = "ipa" -> IF \A i \in Idx(e) : Small(e.norm[i]) THEN {} ELSE {"not-the-surrogate-minimum"}
      [] e.rule = "fixed" -> (IF Small(e.unitary) THEN {} ELSE {"not-unitary"})
                             \cup (IF e.regular = 0 \/ Small(e.dev) THEN {} ELSE {"not-the-fixed-point-step"})
      [] e.rule = "grad" -> \* residual of the move against the two candidates
            IF Small(IF e.holonomic = 1 THEN e.hol ELSE e.nonhol) THEN {} ELSE {"not-the-descent-step"}
      [] e.rule \in {"pds", "admm", "mask"} ->
            {"wrong-" \o e.names[i] : i \in {j \in 1..Len(e.names) : ~Small(e.dev[j])}}
=============================================================================
