-------------------------------- MODULE Output --------------------------------
(* What a separation call returns.  Two bookkeepings of the same spatial     *)
(* updates: "filter" keeps a demixing matrix per bin and recomputes the      *)
(* signals, "signal" keeps the signals only.  T is the ghost map from the    *)
(* mixture to the current signals.  All numbers are Gaussian integers.       *)
EXTENDS CInt
CONSTANTS Mixtures,   \* set of mixtures: bin -> matrix (channel x frame), all of full rank
          Moves,      \* matrices of determinant one an update may multiply a bin with
          MaxUpdates
VARIABLES mode, X, T, F, Y, k, phase
vars == <<mode, X, T, F, Y, k, phase>>
Bins == DOMAIN X
N == Len(X[CHOOSE b \in Bins : TRUE])
Swap == PermM(<<2, 1>>)
TotalInit == /\ mode \in {"filter", "signal"}
             /\ X \in Mixtures
             /\ T = [b \in DOMAIN X |-> Eye(2)]
             /\ F = IF mode = "filter" THEN [b \in DOMAIN X |-> Eye(2)] ELSE <<>>
             /\ Y = X /\ k = 0 /\ phase = "run"
Left(E, A) == [b \in DOMAIN A |-> MMul(E[b], A[b])]
(* an update acts on every bin; filter methods leave the signals stale        *)
Update == /\ phase = "run" /\ k < MaxUpdates
          /\ \E E \in [Bins -> Moves] :
                /\ T' = Left(E, T)
                /\ IF mode = "filter" THEN F' = Left(E, F) /\ Y' = Y ELSE F' = F /\ Y' = Left(E, Y)
          /\ k' = k + 1 /\ UNCHANGED <<mode, X, phase>>
(* alignment permutes rows of every per-source quantity of a bin              *)
Align == /\ phase = "run" /\ phase' = "aligned"
         /\ \E p \in [Bins -> {Eye(2), Swap}] :
               /\ T' = Left(p, T)
               /\ F' = IF mode = "filter" THEN Left(p, F) ELSE F
               /\ Y' = IF mode = "filter" THEN Left(F', X) ELSE Left(p, Y)
         /\ UNCHANGED <<mode, X, k>>
(* one factor per source and bin (units keep the determinant a unit)          *)
Rescale == /\ phase \in {"run", "aligned"} /\ phase' = "scaled"
           /\ \E d \in [Bins -> [1..2 -> {<<1, 0>>, <<0, 1>>}]] :
                 LET D == [b \in Bins |-> DiagM(d[b])] IN
                 /\ T' = Left(D, T)
                 /\ F' = IF mode = "filter" THEN Left(D, F) ELSE F
                 /\ Y' = IF mode = "filter" THEN Y ELSE Left(D, Y)
           /\ UNCHANGED <<mode, X, k>>
Publish == /\ phase \in {"run", "aligned", "scaled"} /\ phase' = "done"
           /\ Y' = IF mode = "filter" THEN Left(F, X) ELSE Y
           /\ UNCHANGED <<mode, X, T, F, k>>
OInit == TotalInit
ONext == Update \/ Align \/ Rescale \/ Publish
OSpec == OInit /\ [][ONext]_vars
ReturnedIsApplied == phase = "done" => Y = Left(T, X)
FilterIsTheMap == mode = "filter" => F = T
SignalInStep == mode = "signal" => Y = Left(T, X)
Invertible == \A b \in Bins : Det(T[b]) \in Units
=============================================================================
