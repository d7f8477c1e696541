-------------------------------- MODULE Frames ---------------------------------
(* What a frame of the recording contributes.  A plan says which frame of the    *)
(* original stands at each place of another recording; 0 is digital silence.     *)
(* Design: two accumulators run over a recording, the weighted average from      *)
(* which filters are computed (weight: 1 over the floored power of the frame)    *)
(* and the plain sum of a penalty.  Exact rational arithmetic <<num, den>>.       *)
EXTENDS Integers, Sequences, FiniteSets, TLC
CONSTANTS MaxLen, MaxT, Floor
VARIABLES orig, plan, at, acc, pen, broken
fvars == <<orig, plan, at, acc, pen, broken>>

Count(p, v) == Cardinality({i \in 1..Len(p) : p[i] = v})
Times(p, T) == IF T = 0 THEN 0 ELSE Count(p, 1)
Uniform(p, T) == \A v \in 1..T : Count(p, v) = Times(p, T)
Silent(p) == {i \in 1..Len(p) : p[i] = 0}
Kind(p, T) == (IF Times(p, T) > 1 THEN {"repeat"} ELSE {}) \cup (IF Silent(p) # {} THEN {"silence"} ELSE {})

(* frames: power y (weight 1/floor(y)) and a product x of two channels *)
Frame == [y : 1..3, x : {-2, 1, 3}]
Quiet == [y |-> 0, x |-> 0]
At(o, p, i) == IF p[i] = 0 THEN Quiet ELSE o[p[i]]
Floored(v) == IF v > Floor THEN v ELSE Floor
RAdd(a, b) == <<a[1] * b[2] + b[1] * a[2], a[2] * b[2]>>
REq(a, b) == a[1] * b[2] = b[1] * a[2]
RECURSIVE Weighted(_, _, _)
Weighted(o, p, n) == IF n = 0 THEN <<0, 1>> ELSE
    LET f == At(o, p, n) IN RAdd(Weighted(o, p, n - 1), IF Floored(f.y) = 0 THEN <<0, 1>> ELSE <<f.x, Floored(f.y)>>)
RECURSIVE Penalty(_, _, _)
Penalty(o, p, n) == IF n = 0 THEN 0 ELSE Penalty(o, p, n - 1) + At(o, p, n).y
Identity(T) == [i \in 1..T |-> i]

FInit == /\ orig \in UNION {[1..n -> Frame] : n \in 1..MaxT}
         /\ plan \in UNION {[1..n -> 0..Len(orig)] : n \in Len(orig)..MaxLen} /\ Uniform(plan, Len(orig)) /\ Times(plan, Len(orig)) > 0
         /\ at = 0 /\ acc = <<0, 1>> /\ pen = 0 /\ broken = FALSE
FNext == /\ at < Len(plan) /\ at' = at + 1 /\ UNCHANGED <<orig, plan>>
         /\ LET f == At(orig, plan, at + 1) IN
            /\ broken' = (broken \/ Floored(f.y) = 0)
            /\ acc' = IF Floored(f.y) = 0 THEN acc ELSE RAdd(acc, <<f.x, Floored(f.y)>>)
            /\ pen' = pen + f.y
FSpec == FInit /\ [][FNext]_fvars
Done == at = Len(plan)
T0 == Len(orig)
(* a floor above zero is enough for silence to be harmless *)
Unharmed == Floor > 0 => ~broken
(* the average over frames does not see repetitions *)
Average == Done /\ Silent(plan) = {} =>
    REq(<<acc[1], acc[2] * Len(plan)>>, <<Weighted(orig, Identity(T0), T0)[1], Weighted(orig, Identity(T0), T0)[2] * T0>>)
(* the average changes by one common factor when silence is put in: whatever does not see the scale is unchanged *)
Factor == Done /\ ~broken =>
    REq(<<acc[1], acc[2] * Times(plan, T0)>>, Weighted(orig, Identity(T0), T0))
(* a sum does not see silence *)
Sum == Done => pen = Times(plan, T0) * Penalty(orig, Identity(T0), T0)

(* ------------------------------ which methods see what of a plan ----------- *)
Splitting == {"prox", "hva"}
(* weights homogeneous in the signal and a filter that is rescaled at the end *)
Homogeneous == {"AuxLaplaceFDICA", "AuxLaplaceIVA", "AuxGaussIVA"}
Blind(e) == (IF e.fam \notin Splitting THEN {"repeat"} ELSE {})
            \cup (IF e.fam \in Splitting \/ (e.cls \in Homogeneous /\ e.rule # "IPA") THEN {"silence"} ELSE {})
Equal(e) == Kind(e.plan, e.t) \subseteq Blind(e)
LossEqual(e) == Equal(e) /\ (e.fam \in Splitting \/ "silence" \notin Kind(e.plan, e.t))
================================================================================
