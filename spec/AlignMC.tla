------------------------------- MODULE AlignMC -------------------------------
EXTENDS Align
Cols2 == {<<3, 4>>, <<4, 3>>, <<0, 5>>, <<5, 0>>}
Cols3 == {<<1, 2, 2>>, <<2, 1, 2>>, <<2, 2, 1>>, <<3, 0, 0>>, <<0, 3, 0>>, <<0, 0, 3>>}
(* score solver: an aligned input stays aligned; a single deviating bin returns *)
Vecs == {<<-3, -1, 1, 3>>, <<3, -1, 1, -3>>, <<-1, 3, -3, 1>>, <<1, 3, -1, -3>>, <<-3, 3, -1, 1>>}
ASSUME \A a, b \in Vecs : a # b =>
    /\ ScoreOutcomes(<<<<a, b>>, <<a, b>>, <<a, b>>>>, 1, 1) = {[k \in 1..3 |-> <<1, 2>>]}
    /\ \A o \in ScoreOutcomes(<<<<a, b>>, <<b, a>>, <<a, b>>, <<a, b>>>>, 1, 1) : o = [k \in 1..4 |-> IF k = 2 THEN <<2, 1>> ELSE <<1, 2>>]
=============================================================================
