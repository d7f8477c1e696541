------------------------------ MODULE Separation ------------------------------
(* What separation methods are for: sources that are separated stay separated.  *)
(* Setting: every frame occurs once per column of a sign design, so that the     *)
(* magnitudes of the sources recur under every relative sign.  Statistics are    *)
(* taken in the coordinates of the sources; row n of the filter is               *)
(* scale[n] times the indicator of source own[n].  Integer arithmetic.           *)
EXTENDS Integers, Sequences, FiniteSets, TLC
CONSTANTS N, Columns, MaxMag, Base, MaxScale, Sweeps
VARIABLES base, design, own0, own, scale, row, at, acc, cross, sweep, mixed
svars == <<base, design, own0, own, scale, row, at, acc, cross, sweep, mixed>>

Idx == 1..N
Perms == {p \in [Idx -> Idx] : \A i, j \in Idx : i # j => p[i] # p[j]}
Zero == [i \in Idx |-> [j \in Idx |-> 0]]
RECURSIVE Inner(_, _, _)
Inner(u, v, k) == IF k = 0 THEN 0 ELSE u[k] * v[k] + Inner(u, v, k - 1)
Balanced(d) == \A i, j \in Idx : i # j => Inner(d[i], d[j], Columns) = 0
Frames == Base * Columns
Mag(t) == base[((t - 1) \div Columns) + 1]
Sign(t, i) == design[i][((t - 1) % Columns) + 1]
Src(t, i) == Sign(t, i) * Mag(t)[i]
(* a weight that falls with the magnitude of what row n puts out *)
Weight(n, t) == 12 \div (scale[n] * Mag(t)[own[n]])
ASSUME \A s \in 1..MaxScale, m \in 1..MaxMag : 12 % (s * m) = 0

Init == /\ base \in [1..Base -> [Idx -> 1..MaxMag]]
        /\ design \in [Idx -> [1..Columns -> {-1, 1}]] /\ design[1][1] = 1
        /\ own0 \in Perms /\ own = own0
        /\ scale \in [Idx -> 1..MaxScale]
        /\ row = 1 /\ at = 1 /\ acc = Zero /\ cross = Zero /\ sweep = 1 /\ mixed = FALSE
Take == /\ sweep <= Sweeps /\ at <= Frames
        /\ acc' = [i \in Idx |-> [j \in Idx |-> acc[i][j] + Weight(row, at) * Src(at, i) * Src(at, j)]]
        /\ cross' = [i \in Idx |-> [j \in Idx |-> cross[i][j] + Src(at, i) * Src(at, j)]]
        /\ at' = at + 1 /\ UNCHANGED <<base, design, own0, own, scale, row, sweep, mixed>>
(* the row becomes the solution of the weighted normal equations: the indicator of own[row] again iff no cross term *)
Update == /\ sweep <= Sweeps /\ at = Frames + 1
          /\ mixed' = (mixed \/ \E j \in Idx : j # own[row] /\ acc[own[row]][j] # 0)
          /\ \E s \in 1..MaxScale : scale' = [scale EXCEPT ![row] = s]
          /\ row' = (row % N) + 1 /\ sweep' = IF row = N THEN sweep + 1 ELSE sweep
          /\ at' = 1 /\ acc' = Zero /\ cross' = Zero /\ UNCHANGED <<base, design, own0, own>>
Next == Take \/ Update
Spec == Init /\ [][Next]_svars

Stays == Balanced(design) => ~mixed /\ own = own0
Full == at = Frames + 1
Diagonal == Full /\ Balanced(design) => \A i, j \in Idx : i # j => acc[i][j] = 0 /\ cross[i][j] = 0
Positive == Full => \A i \in Idx : acc[i][i] > 0
(* the scale that restores the image of a source at a microphone is its mixing coefficient, whatever the filter's scale *)
Image == Full /\ Balanced(design) => \A a \in [Idx -> {-1, 0, 2}], n \in Idx :
    LET y == scale[n] IN
    LET num == y * Inner([j \in Idx |-> a[j]], [j \in Idx |-> cross[j][own[n]]], N) den == y * y * cross[own[n]][own[n]] IN
    num * y = a[own[n]] * den
(* without the balance of signs there is nothing that keeps sources apart *)
Needed == ~(mixed /\ Balanced(design))

(* --------------------------- what is asked of which method ------------------ *)
(* steps that are not multiplied by the inverse of the filter keep their place only in orthonormal coordinates *)
NeedsUnitary(e) == e.fam \in {"prox", "hva"} \/ e.rule = "grad"
(* adjusting a filter to an unrelated random source model may find a better place elsewhere *)
Keeps(e) == (e.rule = "IPA" => e.fam # "ilrma") /\ (NeedsUnitary(e) => e.unitary = 1)
Exchanging == {"IP2", "ISS2"}               \* the better of two solutions may be the exchanged one
IsPerm(s, n) == Len(s) = n /\ \A i, j \in 1..n : s[i] \in 1..n /\ (i # j => s[i] # s[j])
(* methods whose optimum for clearly super-Gaussian sources is the separated state, approached from nearby *)
Attracted(e) == e.cls \in {"AuxFDICA", "AuxLaplaceFDICA", "AuxIVA", "AuxLaplaceIVA", "AuxGaussIVA", "FastIVA", "FasterIVA"}
                \/ (e.unitary = 1 /\ (e.fam = "hva" \/ (e.rule \in {"grad", "natural"} /\ e.cls \notin {"GradGaussIVA", "NaturalGradGaussIVA"})))
================================================================================
