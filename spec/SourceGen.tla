------------------------------ MODULE SourceGen --------------------------------
(* Random configurations and histories: some whole iterations, then blocks in   *)
(* any order, each judged on its own; "once" is a whole iteration.              *)
EXTENDS SourceModel, Json
CONSTANTS Cases, MaxActs
VARIABLE out
R(S) == TLCEval(RandomElement(S))
FamSeq == <<"gauss", "t", "ggd", "mnmf", "fastmnmf", "psdtf", "tpsdtf", "mixture", "variance">>
Raw(i) == Bind(FamSeq[(i % Len(FamSeq)) + 1], LAMBDA f :
     TLCEval([fam |-> f, part |-> R({0, 1}), alg |-> R({"MM", "ME"}), p2 |-> R(1..4), b10 |-> R({5, 10, 14, 19}), nu |-> R({1, 3, 10, 100}),
      sp |-> R({"IP1", "IP2", "ISS1", "ISS2", "IPA"}), norm |-> R({0, 1}), k |-> R(1..4), n |-> R(2..3), c |-> R(2..4),
      bins |-> R(3..6), frames |-> R({8, 13, 20}), blocks |-> R(1..3), before |-> R(0..2), far |-> R({0, 0, 1}), seed |-> R(0..9999),
      cls |-> R({"aux", "grad", "natural"})]))
(* the nearest admissible configuration *)
Fix(c) == Bind([c EXCEPT !.part = IF c.fam \in ILRMA \cup {"mnmf"} /\ c.k > 1 THEN c.part ELSE 0,
                         !.alg = IF c.fam \in {"gauss", "t"} THEN c.alg ELSE "MM"], LAMBDA d :
          [d EXCEPT !.p2 = IF d.fam \in ILRMA /\ d.alg = "MM" THEN d.p2 ELSE 4,
                    !.sp = IF d.sp = "IPA" /\ d.fam # "gauss" THEN "ISS2" ELSE d.sp,
                    !.norm = IF d.fam = "variance" THEN 0 ELSE d.norm])
RECURSIVE Acts(_, _)
Acts(S, k) == IF k = 0 THEN <<>> ELSE <<R(S)>> \o Acts(S, k - 1)
Case(i) == Bind(Fix(Raw(i)), LAMBDA c :
           [id |-> i, c |-> c, ok |-> Valid(c), expo |-> Expo(c), schedule |-> Schedule(c),
            acts |-> Acts(Closed(c) \cup {"once"}, R(2..MaxActs))])
GInit == out = 1 /\ cfg = 0 /\ pc = 0 /\ ver = 0 /\ iter = 0
GNext == out <= Cases /\ out' = out + 1 /\ UNCHANGED vars /\ PrintT("@@CASE " \o ToJson(TLCEval(Case(out))))
GSpec == GInit /\ [][GNext]_<<vars, out>>
================================================================================
