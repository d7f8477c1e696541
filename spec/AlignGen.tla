------------------------------ MODULE AlignGen ------------------------------
(* Random alignment problems: independent bins, scrambled copies of one      *)
(* pattern, scrambled copies with one foreign bin, aligned copies.           *)
EXTENDS Align, TLC, Json
CONSTANTS Cases
PermsOf(v) == {[i \in 1..Len(v) |-> v[p[i]]] : p \in Perms(Len(v))}
ColSet(n) == IF n = 2 THEN {<<3, 4>>, <<4, 3>>, <<0, 5>>, <<5, 0>>}
             ELSE IF n = 3 THEN PermsOf(<<2, 3, 6>>) \cup PermsOf(<<0, 0, 7>>)
             ELSE PermsOf(<<1, 1, 3, 5>>) \cup PermsOf(<<0, 2, 4, 4>>)
RowSet(k) == IF k = 1 THEN PermsOf(<<-3, -1, 1, 3>>)
             ELSE IF k = 2 THEN PermsOf(<<-2, -1, 0, 1, 2>>)
             ELSE PermsOf(<<-4, -1, 2, 3>>)
RandBin(n, t) == LET cs == TLCEval([i \in 1..t |-> RandomElement(ColSet(n))]) IN TLCEval( [s \in 1..n |-> [i \in 1..t |-> cs[i][s]]])
RandRows(n, k) == TLCEval([s \in 1..n |-> RandomElement(RowSet(k))])
Arrange(kind, base, other, nb, n) ==
    [b \in 1..nb |-> IF kind = "aligned" THEN base
                     ELSE IF kind = "foreign" /\ b % 3 = 1 THEN other
                     ELSE TLCEval(App(base, TLCEval(RandomElement(Perms(n)))))]
CorrCase(i) ==
    LET n == TLCEval(RandomElement({2, 3, 3, 4}))
        nb == TLCEval(RandomElement(1..(IF n = 4 THEN 5 ELSE 6)))
        t == TLCEval(RandomElement(2..5))
        kind == TLCEval(RandomElement({"free", "scramble", "foreign", "aligned"}))
        base == TLCEval(RandBin(n, t))
        other == TLCEval(RandBin(n, t))
    IN [id |-> i, fn |-> "corr", n |-> n, kind |-> kind, g |-> 0, l |-> 0,
        M |-> IF kind = "free" THEN [b \in 1..nb |-> RandBin(n, t)] ELSE Arrange(kind, base, other, nb, n)]
ScoreCase(i) ==
    LET n == TLCEval(RandomElement({2, 2, 3}))
        nb == TLCEval(RandomElement(1..9))
        k == TLCEval(RandomElement(1..3))
        kind == TLCEval(RandomElement({"free", "scramble", "foreign", "aligned"}))
        base == TLCEval(RandRows(n, k))
        other == TLCEval(RandRows(n, k))
    IN [id |-> i, fn |-> "score", n |-> n, kind |-> kind, g |-> RandomElement(0..3), l |-> RandomElement(0..2),
        M |-> IF kind = "free" THEN [b \in 1..nb |-> RandRows(n, k)] ELSE Arrange(kind, base, other, nb, n)]
VARIABLE out
GInit == out = 1 /\ M = <<>> /\ rest = {} /\ crit = <<>> /\ perm = <<>>
GNext == /\ out <= Cases /\ out' = out + 1 /\ UNCHANGED vars
         /\ PrintT("@@CASE " \o ToJson(IF out % 2 = 0 THEN CorrCase(out) ELSE ScoreCase(out)))
GSpec == GInit /\ [][GNext]_<<vars, out>>
=============================================================================
