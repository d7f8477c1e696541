------------------------------- MODULE PairGen -------------------------------
(* Prints selector requests and pairwise programs for the replay driver.     *)
EXTENDS PairSelect, TLC, Json
CONSTANTS BigN
Req == {[fn |-> "sequential", n |-> a, stop |-> s, step |-> t, sort |-> b] :
            a \in 2..BigN, s \in {-1, 0, 1, 2, 3, 4, 5, 7, 9, 12, 17}, t \in 1..5, b \in {0, 1}}
       \cup {[fn |-> "combination", n |-> a, stop |-> -1, step |-> 1, sort |-> b] : a \in 2..BigN, b \in {0, 1}}
Pairs(m) == {<<a, b>> : a, b \in 0..(m-1)} \ {<<a, a>> : a \in 0..(m-1)}
(* custom selections: up to two pairs in any order and orientation           *)
Customs == {[fn |-> "custom", n |-> m, pairs |-> p] : m \in {2}, p \in UNION {[1..k -> Pairs(2)] : k \in 1..2}}
      \cup {[fn |-> "custom", n |-> 3, pairs |-> p] : p \in UNION {[1..k -> Pairs(3)] : k \in 0..2}}
      \cup {[fn |-> "custom", n |-> 4, pairs |-> p] : p \in UNION {[1..k -> Pairs(4)] : k \in 1..2}}
VARIABLE out
GInit == out = 0 /\ n = 0 /\ sel = <<>> /\ todo = <<>> /\ done = <<>> /\ iter = 0 /\ ver = <<>>
GNext == /\ out = 0 /\ out' = 1 /\ UNCHANGED vars
         /\ \A r \in Req : PrintT("@@CASE " \o ToJson(r))
         /\ \A r \in Customs : PrintT("@@CASE " \o ToJson(r))
GSpec == GInit /\ [][GNext]_<<vars, out>>
=============================================================================
