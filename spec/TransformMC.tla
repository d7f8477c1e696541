----------------------------- MODULE TransformMC -----------------------------
(* The characterization: a Gram matrix fixes the answer up to a unitary map,  *)
(* it is a projector for whitening, and it follows the frames.                *)
EXTENDS Transform
VARIABLES X, p
mvars == <<X, p>>
N == {<<-1, 0>>, <<0, 0>>, <<1, 1>>}
P3 == {q \in [1..3 -> 1..3] : {q[i] : i \in 1..3} = 1..3}
MInit == /\ X \in [1..2 -> [1..3 -> N]] /\ p \in P3
MNext == UNCHANGED mvars
MSpec == MInit /\ [][MNext]_mvars
\* G G = Det(C) G: Det(C)^-1 G is the projector on the row space, of rank the number of channels
WhiteIsProjector == FullRank(X) => LET G == WhitenGram(X) IN
    /\ MMul(G, G) = CMatScale(Det(Cov(X)), G) /\ IsHermitian(G) /\ Trace1(G) = CScale(2, Det(Cov(X)))
\* invertible maps of the channels do not change it, unitary ones do not change the PCA Gram matrix
Mixed == [c \in 1..2 |-> IF c = 1 THEN [t \in 1..3 |-> CAdd(X[1][t], CMul(<<1, 1>>, X[2][t]))] ELSE X[2]]
WhiteForgetsMixing == FullRank(X) => WhitenGram(Mixed) = WhitenGram(X)
Turned == [c \in 1..2 |-> IF c = 1 THEN [t \in 1..3 |-> CMul(Imag, X[2][t])] ELSE X[1]]
PcaForgetsRotation == Gram(Turned) = Gram(X)
FrameOrder == /\ Gram(Reordered(X, p)) = PermGram(Gram(X), p)
              /\ Cov(Reordered(X, p)) = Cov(X)
=============================================================================
