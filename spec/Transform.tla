------------------------------ MODULE Transform ------------------------------
(* Whitening and principal component analysis of one bin: X is a matrix of    *)
(* channels by frames over the Gaussian integers, C = X X^H its (unnormalized *)
(* sample) covariance.  What is invariant of the answer Y:                    *)
(*   whitening: Y Y^H = T I and Y = M X with M invertible, equivalently       *)
(*              Det(C) Y^H Y = T X^H Adj(C) X                                 *)
(*   PCA:       Y = U^H X with U unitary, equivalently Y^H Y = X^H X (Y and X *)
(*              have the same Gram matrix), Y Y^H diagonal, monotone          *)
EXTENDS CInt
Cov(X) == MMul(X, Herm(X))
Gram(X) == MMul(Herm(X), X)
WhitenGram(X) == Bind(Adj(Cov(X)), LAMBDA A : MMul(Herm(X), MMul(A, X)))   \* Det(C)/T times the Gram matrix
FullRank(X) == Det(Cov(X)) # Zero
Reordered(X, p) == [c \in 1..Len(X) |-> [t \in 1..Len(p) |-> X[c][p[t]]]]
PermGram(G, p) == [i \in 1..Len(p) |-> [j \in 1..Len(p) |-> G[p[i]][p[j]]]]
=============================================================================
