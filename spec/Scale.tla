-------------------------------- MODULE Scale --------------------------------
(* Restoring the scale of separated signals, exactly.                        *)
(* Projection back of a filter W at channel r multiplies row n by            *)
(*   inv(W)[r][n] = Adj(W)[r][n] / Det(W);                                   *)
(* the minimal distortion principle multiplies a signal y by                 *)
(*   sum_t x_r[t] conj(y[t]) / sum_t |y[t]|^2.                               *)
(* Both are kept as a numerator and a common denominator.                    *)
EXTENDS CInt
CONSTANTS Entries,   \* entries of filters in the design model
          Sizes,     \* numbers of channels
          Samples,   \* sample values of signals in the design model
          Frames

(* ------------------------------------------------------ projection back *)
PBNumA(M, A, r) == TLCEval([n \in 1..Len(M) |-> [m \in 1..Len(M) |-> CMul(A[r][n], M[n][m])]])
PBNum(M, r) == CHOOSE q \in {PBNumA(MM, Adj(MM), r) : MM \in {M}} : TRUE
PBDen(M) == Det(M)
(* equality of two projected filters given as numerator/denominator          *)
SameRatio(N1, d1, N2, d2) == CMatScale(d2, N1) = CMatScale(d1, N2)
SumRows(A) == [m \in 1..NCols(A) |-> CSum(Col(A, m))]
UnitRow(n, r, c) == [m \in 1..n |-> IF m = r THEN c ELSE Zero]
(* of signals: Y = W X, restored by the same factors                          *)
PBSignal(M, Z, r) == MMul(PBNum(M, r), Z)
(* the factors obtained from signals and reference alone (least squares):    *)
(* x_r = sum_n a_n y_n with a = x_r Y^H (Y Y^H)^-1                            *)
LSNum(Y, Z, r) == LET YH == TLCEval(Herm(Y)) G == TLCEval(MMul(Y, YH)) IN MMul(MMul(<<Z[r]>>, YH), Adj(G))[1]
LSDen(Y) == Det(MMul(Y, Herm(Y)))

(* -------------------------------------------- minimal distortion principle *)
MDPNum(s, z) == CSum([t \in 1..Len(s) |-> CMul(z[t], Conj(s[t]))])
MDPDen(s) == CSum([t \in 1..Len(s) |-> <<Abs2(s[t]), 0>>])
Err(s, z, num, den) == \* den^2 * squared error of (num/den) s against z
    CSum([t \in 1..Len(s) |-> <<Abs2(CSub(CMul(den, z[t]), CMul(num, s[t]))), 0>>])[1]

(* ------------------------------------------------------------ design model *)
VARIABLES W, D, ref, X, y, x
vars == <<W, D, ref, X, y, x>>
Mats(n) == [1..n -> [1..n -> Entries]]
Vecs == [1..Frames -> Samples]
None == <<>>
SInit == \/ \E n \in Sizes : /\ W \in {M \in Mats(n) : Det(M) # Zero}
                             /\ D \in [1..n -> (Samples \ {Zero})]
                             /\ ref \in 1..n /\ X = None /\ y = None /\ x = None
         \/ /\ W = None /\ D = None /\ ref = 0 /\ X = None
            /\ y \in (Vecs \ {[t \in 1..Frames |-> Zero]}) /\ x \in Vecs
SNext == UNCHANGED vars
SSpec == SInit /\ [][SNext]_vars

PBReconstructs == W # None => SumRows(PBNum(W, ref)) = UnitRow(Len(W), ref, PBDen(W))
PBIdempotent == W # None =>
    LET P == PBNum(W, ref) d == PBDen(W) IN
    (Det(P) # Zero) => SameRatio(PBNum(P, ref), PBDen(P), P, d)
PBScaleFree == W # None =>
    LET DW == MMul(DiagM(D), W) IN SameRatio(PBNum(DW, ref), PBDen(DW), PBNum(W, ref), PBDen(W))
(* the sensors themselves as signals: filter form and signal form agree       *)
PBForms == W # None =>
    LET a == LSNum(W, Eye(Len(W)), ref) g == LSDen(W)
    IN \A n \in 1..Len(W) : CMul(a[n], PBDen(W)) = CMul(g, Adj(W)[ref][n])
MDPOptimal == W = None =>
    \A num \in Samples, den \in {<<1, 0>>, <<2, 0>>} :
        Err(y, x, MDPNum(y, x), MDPDen(y)) * den[1] * den[1] <= Err(y, x, num, den) * MDPDen(y)[1] * MDPDen(y)[1]
MDPOrthogonal == W = None =>
    CSum([t \in 1..Len(y) |-> CMul(CSub(CMul(MDPDen(y), x[t]), CMul(MDPNum(y, x), y[t])), Conj(y[t]))]) = Zero
MDPIdempotent == W = None =>
    LET c == MDPNum(y, x) z == [t \in 1..Len(y) |-> CMul(c, y[t])] IN
    CMul(MDPNum(z, x), MDPDen(y)) = MDPDen(z)
MDPScaleFree == W = None =>
    \A d \in Samples \ {Zero} :
        LET z == [t \in 1..Len(y) |-> CMul(d, y[t])] IN
        \* (num(z)/den(z)) d = num(y)/den(y)
        CMul(CMul(MDPNum(z, x), d), MDPDen(y)) = CMul(MDPNum(y, x), MDPDen(z))
=============================================================================
