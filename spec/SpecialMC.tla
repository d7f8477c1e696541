------------------------------ MODULE SpecialMC ------------------------------
(* Exhaustive small design: what the definitions imply.                       *)
EXTENDS Special
CONSTANTS Big, MaxD, Eps
VARIABLES E, axes, mat, d, kind, step
mvars == <<E, axes, mat, d, kind, step>>
Arr == [1..2 -> [1..2 -> [1..2 -> 1..Big]]]
AllBases == {Bases(2, TRUE)[i] : i \in 1..4} \cup {Bases(3, TRUE)[i] : i \in 1..4}
MInit == \/ /\ E \in Arr /\ axes \in SUBSET (1..3) /\ mat = <<>> /\ d = <<>> /\ kind = "none" /\ step = 0
         \/ /\ mat \in AllBases /\ d \in [1..Len(mat.m) -> -MaxD..MaxD] /\ kind \in {"none", "max"}
            /\ E = <<>> /\ axes = {} /\ step = 0
(* softmax is unchanged when every exponential of a group is multiplied, and  *)
(* the projection is applied again to its own result                         *)
MNext == /\ step < 2 /\ step' = step + 1 /\ UNCHANGED <<axes, mat, kind>>
         /\ IF mat = <<>> THEN /\ E' = [i \in 1..2 |-> [j \in 1..2 |-> [k \in 1..2 |-> 3 * E[i][j][k]]]] /\ UNCHANGED d
            ELSE /\ d' = [i \in 1..Len(d) |-> Floor(kind, Eps, d[i])] /\ UNCHANGED E
MSpec == MInit /\ [][MNext]_mvars
RECURSIVE SumAll(_, _, _)
SumAll(A, S, n) == IF S = {} THEN 0 ELSE LET y == CHOOSE y \in S : TRUE IN At(A, y) + SumAll(A, S \ {y}, n)
SumsToOne == mat = <<>> => \A x \in Slots(E) : SumAll(E, Group(E, axes, x), 0) = GroupSum(E, axes, x)
ShiftInvariant == [][mat = <<>> => \A x \in Slots(E) : At(E', x) * GroupSum(E, axes, x) = At(E, x) * GroupSum(E', axes, x)]_mvars
ProjectsToHermitian == mat # <<>> => IsHermitian(PsdOut(mat.m, d, kind, Eps)) /\ IsScaledUnitary(mat.m, mat.den)
Idempotent == [][mat # <<>> /\ step = 1 => d' = d]_mvars
AboveFloorUntouched == [][mat # <<>> /\ (\A i \in 1..Len(d) : d[i] >= Eps) => d' = d]_mvars
(* trace of the projection is the sum of the floored eigenvalues             *)
RECURSIVE SumD(_, _)
SumD(f, k) == IF k = 0 THEN 0 ELSE f[k] + SumD(f, k - 1)
TraceRight == mat # <<>> => Trace1(PsdOut(mat.m, d, kind, Eps)) = <<mat.den * mat.den * SumD([i \in 1..Len(d) |-> Floor(kind, Eps, d[i])], Len(d)), 0>>
=============================================================================
