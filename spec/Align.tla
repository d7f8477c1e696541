-------------------------------- MODULE Align --------------------------------
(* Permutation alignment between frequency bins on exact integer activities. *)
(* A bin is a sequence of rows (sources), a row a sequence of integers       *)
(* (frames).  Correlation solver: all columns of a bin have the same         *)
(* Euclidean norm, so the normalisation over sources is a common factor.     *)
(* Score solver: all rows have zero mean and the same energy.                *)
(* Equal scores may be resolved either way.                                  *)
EXTENDS Integers, Sequences, FiniteSets

RECURSIVE Sum(_)
Sum(s) == IF s = <<>> THEN 0 ELSE Head(s) + Sum(Tail(s))
Dot(a, b) == Sum([t \in 1..Len(a) |-> a[t] * b[t]])
Perms(n) == {p \in [1..n -> 1..n] : {p[i] : i \in 1..n} = 1..n}
Id(n) == [i \in 1..n |-> i]
App(rows, p) == [i \in 1..Len(p) |-> rows[p[i]]]
RowsAdd(a, b) == [i \in 1..Len(a) |-> [t \in 1..Len(a[i]) |-> a[i][t] + b[i][t]]]
MaxOf(S) == CHOOSE x \in S : \A y \in S : y <= x
MinOf(S) == CHOOSE x \in S : \A y \in S : x <= y

(* ------------------------------------------------ correlation-based solver *)
(* cross-correlation inside a bin: the bins are visited from the least       *)
(* correlated one                                                            *)
Corr(rows) == LET tot == [t \in 1..Len(rows[1]) |-> Sum([s \in 1..Len(rows) |-> rows[s][t]])] IN Dot(tot, tot)
Match(crit, rows, p) == Sum([s \in 1..Len(crit) |-> Dot(crit[s], rows[p[s]])])
Best(crit, rows) == LET N == Len(rows)
                        m == [p \in Perms(N) |-> Match(crit, rows, p)]
                        top == MaxOf({m[p] : p \in Perms(N)})
                    IN {p \in Perms(N) : m[p] = top}
NextBins(M, rest) == LET c == [b \in rest |-> Corr(M[b])] IN {b \in rest : c[b] = MinOf({c[x] : x \in rest})}
(* is perm (one per bin) an outcome of the greedy procedure?                 *)
RECURSIVE Follow(_, _, _, _)
Follow(M, perm, rest, crit) ==
    \/ rest = {}
    \/ \E b \in NextBins(M, rest) :
          /\ perm[b] \in Best(crit, M[b])
          /\ Follow(M, perm, rest \ {b}, RowsAdd(crit, App(M[b], perm[b])))
CorrOutcome(M, perm) ==
    \E b \in NextBins(M, 1..Len(M)) :
        perm[b] = Id(Len(M[b])) /\ Follow(M, perm, (1..Len(M)) \ {b}, M[b])

(* ------------------------------------------------------ score-based solver *)
RECURSIVE ISqrtB(_, _, _)
ISqrtB(v, lo, hi) == IF hi - lo <= 1 THEN lo
                     ELSE LET m == (lo + hi) \div 2 IN IF m <= v \div m THEN ISqrtB(v, m, hi) ELSE ISqrtB(v, lo, m)
ISqrt(v) == IF v = 0 THEN 0 ELSE ISqrtB(v, 1, 46341)
Abs(x) == IF x < 0 THEN -x ELSE x
(* global step: every bin towards the centroids; weight 1/deviation in fixed point *)
Centroid(Z, cur) == LET N == Len(Z[1]) T == Len(Z[1][1]) IN
    [j \in 1..N |-> [t \in 1..T |-> Sum([b \in 1..Len(Z) |-> Z[b][cur[b][j]][t]])]]
Weight(c) == LET e == Dot(c, c) IN IF e = 0 THEN 0 ELSE ISqrt(2000000000 \div e)
GlobalBest(rows, C) ==
    LET N == Len(rows)
        w == [j \in 1..N |-> Weight(C[j])]
        d == [i \in 1..N, j \in 1..N |-> Dot(rows[i], C[j])]
        sc == [p \in Perms(N) |-> Sum([j \in 1..N |-> d[p[j], j] * w[j]])]
        band == 4 * N + 2 * Sum([j \in 1..N |-> MaxOf({Abs(d[i, j]) : i \in 1..N})])
        top == MaxOf({sc[p] : p \in Perms(N)})
    IN {p \in Perms(N) : sc[p] >= top - band}
(* p permutes the current arrangement                                        *)
Compose(cur, p) == [i \in 1..Len(p) |-> cur[p[i]]]
RECURSIVE GlobalFrom(_, _, _, _, _)
GlobalFrom(Z, C, cur, b, acc) ==   \* set of arrangements after bins b..n have moved
    IF b > Len(Z) THEN acc
    ELSE LET G == GlobalBest(App(Z[b], cur[b]), C)
         IN GlobalFrom(Z, C, cur, b + 1, {[a EXCEPT ![b] = Compose(cur[b], p)] : a \in acc, p \in G})
GlobalStep(Z, cur) == GlobalFrom(Z, Centroid(Z, cur), cur, 1, {cur})
(* local step for bin b (1-based): neighbours within 3, around b/2 and 2b (0-based indices) *)
Lim(x, n) == IF x < 0 THEN 0 ELSE IF x > n - 1 THEN n - 1 ELSE x
Nbrs(b, n) == LET k == b - 1 IN
    {i + 1 : i \in (Lim(k-3, n)..Lim(k+3, n) \ {k}) \cup (Lim(k \div 2 - 1, n)..Lim(k \div 2 + 1, n))
                   \cup (IF 2 * k - 1 > n - 1 THEN {} ELSE Lim(2*k-1, n)..Lim(2*k+1, n))}
LocalBest(Z, cur, b) ==
    LET N == Len(Z[b])
        nb == Nbrs(b, Len(Z))
        T == Len(Z[b][1])
        ref == [j \in 1..N |-> [t \in 1..T |->
                 LET S[k \in 0..Len(Z)] == IF k = 0 THEN 0
                        ELSE S[k-1] + (IF k \in nb THEN Z[k][cur[k][j]][t] ELSE 0) IN S[Len(Z)]]]
        rows == App(Z[b], cur[b])
        m == [p \in Perms(N) |-> Match(ref, rows, p)]
        top == MaxOf({m[p] : p \in Perms(N)})
    IN {p \in Perms(N) : m[p] = top}
RECURSIVE LocalFrom(_, _, _)
LocalFrom(Z, curs, b) ==
    IF b > Len(Z) THEN curs
    ELSE LocalFrom(Z, UNION {{[c EXCEPT ![b] = Compose(c[b], p)] : p \in LocalBest(Z, c, b)} : c \in curs}, b + 1)
RECURSIVE Score(_, _, _, _)
(* arrangements reachable after g global and then l local iterations; give up beyond the cap *)
Cap == 40
Score(Z, curs, g, l) ==
    IF Cardinality(curs) > Cap THEN curs
    ELSE IF g > 0 THEN Score(Z, UNION {GlobalStep(Z, c) : c \in curs}, g - 1, l)
    ELSE IF l > 0 THEN Score(Z, LocalFrom(Z, curs, 1), g, l - 1)
    ELSE curs
ScoreOutcomes(Z, g, l) == Score(Z, {[b \in 1..Len(Z) |-> Id(Len(Z[b]))]}, g, l)

(* ------------------------------------- the greedy procedure as a machine   *)
CONSTANTS Cols,      \* columns (one number per source) of equal norm
          NBins, NFrames
VARIABLES M, rest, crit, perm
vars == <<M, rest, crit, perm>>
NSrc == Len(CHOOSE c \in Cols : TRUE)
Bin(cs) == [s \in 1..NSrc |-> [t \in 1..NFrames |-> cs[t][s]]]
Init == /\ M \in [1..NBins -> {Bin(cs) : cs \in [1..NFrames -> Cols]}]
        /\ rest = 1..NBins /\ crit = <<>> /\ perm = [b \in 1..NBins |-> <<>>]
First == /\ crit = <<>>
         /\ \E b \in NextBins(M, rest) :
              crit' = M[b] /\ rest' = rest \ {b} /\ perm' = [perm EXCEPT ![b] = Id(NSrc)]
         /\ UNCHANGED M
Step == /\ crit # <<>> /\ rest # {}
        /\ \E b \in NextBins(M, rest) : \E p \in Best(crit, M[b]) :
              /\ perm' = [perm EXCEPT ![b] = p]
              /\ crit' = RowsAdd(crit, App(M[b], p))
              /\ rest' = rest \ {b}
        /\ UNCHANGED M
Next == First \/ Step
Spec == Init /\ [][Next]_vars
Done == crit # <<>> /\ rest = {}
(* the machine and the trace predicate agree                                 *)
Agree == Done => CorrOutcome(M, perm)
(* only reorders                                                             *)
Reorders == Done => \A b \in 1..NBins : perm[b] \in Perms(NSrc)
(* bins that share a pattern with pairwise different rows end up equal       *)
Shared == \A b \in 1..NBins : \E p \in Perms(NSrc) : App(M[b], p) = M[1]
Distinct == \A s, r \in 1..NSrc : s # r => M[1][s] # M[1][r]
Aligns == (Done /\ Shared /\ Distinct) => \A b \in 1..NBins : App(M[b], perm[b]) = App(M[1], perm[1])
Stays == (Done /\ Distinct /\ \A b \in 1..NBins : M[b] = M[1]) => \A b \in 1..NBins : perm[b] = Id(NSrc)
=============================================================================
