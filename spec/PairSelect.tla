----------------------------- MODULE PairSelect -----------------------------
(* Pair selectors and the pairwise update they drive.                        *)
EXTENDS Integers, Sequences, FiniteSets
CONSTANTS MaxN,     \* largest number of sources
          MaxIter

Ordered(p, sort) == IF sort /\ p[1] > p[2] THEN <<p[2], p[1]>> ELSE p

(* ceil(stop / step) pairs: the k-th starts at k*step modulo n               *)
Count(stop, step) == IF stop <= 0 THEN 0 ELSE (stop + step - 1) \div step
Sequential(n, stop, step, sort) ==
    [k \in 1..Count(stop, step) |->
        LET m == ((k - 1) * step) % n IN Ordered(<<m, (m + 1) % n>>, sort)]

(* lexicographic order of all unordered pairs                                *)
RECURSIVE CombFrom(_, _, _)
CombFrom(n, a, b) == IF a >= n - 1 THEN <<>>
                     ELSE IF b >= n THEN CombFrom(n, a + 1, a + 2)
                     ELSE <<<<a, b>>>> \o CombFrom(n, a, b + 1)
Combination(n) == CombFrom(n, 0, 1)

Valid(ps, n) == \A k \in 1..Len(ps) : ps[k][1] \in 0..(n-1) /\ ps[k][2] \in 0..(n-1) /\ ps[k][1] # ps[k][2]
Touched(ps) == {ps[k][1] : k \in 1..Len(ps)} \cup {ps[k][2] : k \in 1..Len(ps)}

(* --- the machine: one iteration asks the selector once and works the pairs off in order *)
VARIABLES n, sel, todo, done, iter, ver
vars == <<n, sel, todo, done, iter, ver>>
Sels == UNION {
    {Sequential(m, s, t, b) : s \in 0..(2*m), t \in 1..3, b \in BOOLEAN} \cup {Combination(m)} : m \in 2..MaxN}
Init == /\ n \in 2..MaxN
        /\ sel \in {Sequential(n, s, t, b) : s \in 0..(2*n), t \in 1..3, b \in BOOLEAN} \cup {Combination(n)}
        /\ todo = <<>> /\ done = <<>> /\ iter = 0
        /\ ver = [i \in 0..(n-1) |-> 0]
Start == todo = <<>> /\ iter < MaxIter /\ todo' = sel /\ done' = <<>> /\ iter' = iter + 1 /\ UNCHANGED <<n, sel, ver>>
Step == /\ todo # <<>>
        /\ ver' = [i \in DOMAIN ver |-> ver[i] + (IF i \in {todo[1][1], todo[1][2]} THEN 1 ELSE 0)]
        /\ done' = Append(done, todo[1]) /\ todo' = Tail(todo) /\ UNCHANGED <<n, sel, iter>>
Next == Start \/ Step
Spec == Init /\ [][Next]_vars

TypeOk == Valid(sel, n)
OrderKept == iter > 0 => done \o todo = sel
OnlyTouched == \A i \in DOMAIN ver : ver[i] > 0 => i \in Touched(sel)
(* once per iteration every occurrence in the selection is one update        *)
Exact == (iter > 0 /\ todo = <<>>) =>
            \A i \in DOMAIN ver : ver[i] = iter * Cardinality({k \in 1..Len(sel) : i \in {sel[k][1], sel[k][2]}})
(* laws of the selectors themselves                                          *)
Laws == /\ LET d == Sequential(n, n, 1, FALSE) IN
             /\ Len(d) = n /\ Touched(d) = 0..(n-1)
             /\ \A k \in 1..n : Cardinality({j \in 1..n : k-1 \in {d[j][1], d[j][2]}}) = 2
        /\ LET c == Combination(n) IN
             /\ Len(c) = (n * (n-1)) \div 2
             /\ \A a, b \in 0..(n-1) : a < b => Cardinality({k \in 1..Len(c) : c[k] = <<a, b>>}) = 1
             /\ \A k \in 1..(Len(c)-1) : c[k][1] < c[k+1][1] \/ (c[k][1] = c[k+1][1] /\ c[k][2] < c[k+1][2])
        /\ \A s \in 0..(2*n), t \in 1..3 : \A k \in 1..Len(Sequential(n, s, t, TRUE)) :
             Sequential(n, s, t, TRUE)[k][1] < Sequential(n, s, t, TRUE)[k][2]
=============================================================================
