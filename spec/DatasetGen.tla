----------------------------- MODULE DatasetGen -----------------------------
(* Random histories of requests on two cache directories, with outages, cut   *)
(* transfers and removals; every request carries the images it denotes.       *)
EXTENDS DatasetCacheMC, Json
CONSTANTS Cases, MaxLen
VARIABLE out
Bind(v, F(_)) == F(v)
R(S) == TLCEval(RandomElement(S))
Fields == {"tag", "n", "rev", "dur", "conv"}
Want(r) == IF Valid(r) THEN [shape |-> Shape(r), image |-> Image(r)] ELSE [shape |-> <<>>, image |-> <<>>]
(* arguments left out take their documented defaults *)
Full(r, omit) == [k \in Fields |-> IF k \in omit THEN Default[k] ELSE r[k]]
Ask(r, omit, root, w) == [op |-> "ask", r |-> Full(r, omit), omit |-> omit, root |-> root, net |-> w, want |-> Want(Full(r, omit))]
(* (an operator without parameters would be evaluated only once)             *)
Raw(k) == [tag |-> IF R(1..12) = 1 THEN R({"dev1_female4 ", "dev2_female3", "dev1_female", ""}) ELSE R(Tags),
        n |-> IF R(1..8) = 1 THEN R({0, 5, 6}) ELSE R(1..4), rev |-> IF R(1..10) = 1 THEN R({200, 0, 159}) ELSE R(Reverbs), dur |-> R({1, 1000, 4800, 7777, 11000, 160000}), conv |-> R(1..3) > 1]
(* an invalid room with an instantaneous mixture is left open by the documentation *)
Fix(r) == IF ~r.conv /\ r.rev \notin Reverbs THEN [r EXCEPT !.rev = 360] ELSE r
Near(r) == Bind(R({"tag", "n", "rev", "dur", "conv", "same"}), LAMBDA k :
           CASE k = "tag" -> [r EXCEPT !.tag = R(Tags)] [] k = "n" -> [r EXCEPT !.n = R(1..4)] [] k = "rev" -> [r EXCEPT !.rev = R(Reverbs)]
             [] k = "dur" -> [r EXCEPT !.dur = R({1000, 7777, 160000})] [] k = "conv" -> [r EXCEPT !.conv = ~r.conv] [] OTHER -> r)
Omit(k) == R({{}, {"n"}, {"tag"}, {"rev"}, {"conv"}, {"dur"}, {"n", "rev", "conv"}, Fields})
RECURSIVE Steps(_, _)
Steps(prev, k) == IF k = 0 THEN <<>> ELSE
    Bind(R(1..10), LAMBDA d :
      IF d = 1 THEN <<[op |-> "evict", root |-> R({"a", "b", "-"}), what |-> R({"npz", "zip", "all"})]>> \o Steps(prev, k - 1)
      ELSE Bind(TLCEval(Fix(IF d <= 5 THEN Near(prev) ELSE Raw(k))), LAMBDA r :
           <<TLCEval(Ask(r, IF R(1..3) = 1 THEN Omit(k) ELSE {}, IF R(1..5) <= 3 THEN "a" ELSE R({"b", "-"}), IF R(1..4) > 1 THEN "up" ELSE R({"down", "cut"})))>> \o Steps(IF Valid(r) THEN r ELSE prev, k - 1)))
Case(i) == [id |-> i, steps |-> Steps(Fix([Raw(i) EXCEPT !.tag = R(Tags)]), R(2..MaxLen))]
GInit == Init /\ out = 1
GNext == out <= Cases /\ out' = out + 1 /\ UNCHANGED vars /\ PrintT("@@CASE " \o ToJson(TLCEval(Case(out))))
GSpec == GInit /\ [][GNext]_<<vars, out>>
=============================================================================
