------------------------------ MODULE LinAlgMC ------------------------------
(* Exhaustive small design: posed problems really have the posed answers.     *)
EXTENDS LinAlg
CONSTANTS MaxD
VARIABLES kind, Z, d, r, a
mvars == <<kind, Z, d, r, a>>
Sh == {<<0, 0>>, <<1, 0>>, <<0, 1>>, <<-1, 1>>}
Uni2 == {MMul(<<<<One, s>>, <<Zero, One>>>>, <<<<One, Zero>>, <<t, u>>>>) : s \in Sh, t \in Sh, u \in {One, Imag}}
G == {<<0, 0>>, <<1, 0>>, <<0, 2>>, <<-1, 1>>}
MInit == \/ /\ kind \in 1..3 /\ Z \in Uni2 /\ d \in [1..2 -> 0..MaxD] /\ r = <<>> /\ a = Zero
         \/ /\ kind = 4 /\ Z = <<>> /\ d = <<>> /\ r \in [1..3 -> G] /\ a \in {One, <<2, -1>>}
MNext == UNCHANGED mvars
MSpec == MInit /\ [][MNext]_mvars
Posed == kind \in 1..3 =>
    LET A == EigA(kind, Z, d) B == EigB(kind, Z)
    IN /\ IsHermitian(A) /\ IsHermitian(B) /\ EigHolds(kind, A, B, Z, d) /\ EigNormal(kind, B, Z)
       /\ Sorted(d) = Sorted(<<d[2], d[1]>>)
\* the projectors do not depend on the order of the columns
ProjectorsInvariant == kind \in 1..3 =>
    Projectors(Z, d) = Projectors(<<<<Z[1][2], Z[1][1]>>, <<Z[2][2], Z[2][1]>>>>, <<d[2], d[1]>>)
Means == kind \in 1..3 =>
    LET A == MeanA(kind, Z, d) B == MeanB(kind, Z, d) X == MeanOut(Z, d)
        AA == IF kind = 2 THEN Inv(A) ELSE A
    IN IF kind = 3 THEN MMul(X, MMul(B, X)) = A \* X B X = A: B^-1 # A
       ELSE Riccati(AA, B, X)
Roots == kind = 4 => \A k \in 1..3 : CubicAt(Cubic(a, r), r[k]) = Zero
Inverses == kind \in 1..3 => \A M \in {MAdd(Z, Eye(2)), EigB(1, Z)} :
    MMul(M, InvDet(M)) = [i \in 1..2 |-> [j \in 1..2 |-> IF i = j THEN Det(M) ELSE Zero]]
=============================================================================
