---------------------------- MODULE SeparationMask ----------------------------
(* Methods that assign time-frequency points: every point belongs to one source,  *)
(* and lies within Noise of its direction (directions form a ring of Ring).        *)
(* Centres start at the directions; points go to the nearest centre, centres move  *)
(* to a middle of their points.  Assignments stay with the owners, in either order *)
(* of the two steps and over sweeps, as long as the directions are far enough.     *)
EXTENDS Integers, FiniteSets, TLC
CONSTANTS N, Ring, Points, Noise, Sweeps
VARIABLES dir, pts, own, centre, given, sweep, phase
vars == <<dir, pts, own, centre, given, sweep, phase>>
Idx == 1..N
Mod(a) == a % Ring
Gap(a, b) == LET d == Mod(a - b) IN IF 2 * d > Ring THEN Ring - d ELSE d
Spread == \A i, j \in Idx : i # j => Gap(dir[i], dir[j]) > 4 * Noise
(* a common rotation changes nothing: the first direction is 0 *)
Init == /\ dir \in {d \in [Idx -> 0..Ring - 1] : d[1] = 0} /\ Spread
        /\ own \in [1..Points -> Idx] /\ \A i \in Idx : \E p \in 1..Points : own[p] = i
        /\ \E off \in [1..Points -> -Noise..Noise] : pts = [p \in 1..Points |-> Mod(dir[own[p]] + off[p])]
        /\ centre = dir /\ given = [p \in 1..Points |-> 0] /\ sweep = 1 /\ phase = "assign"
Nearest(p) == {i \in Idx : \A j \in Idx : Gap(pts[p], centre[i]) <= Gap(pts[p], centre[j])}
Assign == /\ phase = "assign" /\ sweep <= Sweeps
          /\ (\E g \in [1..Points -> Idx] : (\A p \in 1..Points : g[p] \in Nearest(p)) /\ given' = g)
          /\ phase' = "move" /\ UNCHANGED <<dir, pts, own, centre, sweep>>
Worst(c, i) == LET far == TLCEval({Gap(pts[p], c) : p \in {p \in 1..Points : given[p] = i}}) IN CHOOSE d \in far : \A o \in far : o <= d
Middle(i) == LET w == TLCEval([c \in 0..Ring - 1 |-> Worst(c, i)]) IN {c \in 0..Ring - 1 : \A o \in 0..Ring - 1 : w[c] <= w[o]}
Move == /\ phase = "move"
        /\ LET mid == TLCEval([i \in Idx |-> TLCEval(Middle(i))]) IN
           \E c \in [Idx -> UNION {mid[i] : i \in Idx}] : (\A i \in Idx : c[i] \in mid[i]) /\ centre' = c
        /\ phase' = "assign" /\ sweep' = sweep + 1 /\ UNCHANGED <<dir, pts, own, given>>
Next == Assign \/ Move
Spec == Init /\ [][Next]_vars
Kept == \A p \in 1..Points : given[p] \in {0, own[p]}
Close == \A i \in Idx : Gap(centre[i], dir[i]) <= Noise
Decided == phase = "assign" => \A p \in 1..Points : Cardinality(Nearest(p)) = 1
================================================================================
