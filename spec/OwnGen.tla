------------------------------- MODULE OwnGen -------------------------------
(* Random histories of calls sharing arrays, with a memory layout per use.    *)
EXTENDS Integers, Sequences, TLC, Json
CONSTANTS Cases
VARIABLE out
Lay == {"c", "f", "t", "s", "n", "ro", "ros", "sub"}
R(S) == TLCEval(RandomElement(S))
(* sources: 1, 2 are the caller's mixtures, 10 + k is what operation k returned *)
Op(k) == LET kind == R(IF k = 1 THEN {"call"} ELSE {"call", "again", "call", "separate", "loss"})
         IN TLCEval([op |-> kind, o |-> R(1..2), x |-> R({1, 2} \cup (10 + 1)..(10 + k - 1)), lay |-> R(Lay),
             par |-> R({0, 1, 1}), plays |-> R(Lay), n |-> R(0..3)])
\* parameterised: a constant-level definition would be evaluated once and repeat the same case
Hist(i) == LET n == R(1..4) IN TLCEval([k \in 1..n |-> Op(k)])
GInit == out = 1
GNext == out <= Cases /\ out' = out + 1 /\ PrintT("@@CASE " \o ToJson([id |-> out, ops |-> Hist(out)]))
GSpec == GInit /\ [][GNext]_out
=============================================================================
