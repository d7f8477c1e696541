----------------------------- MODULE AdmissibleGen -----------------------------
(* Requests to try: every class with every value of every option, function       *)
(* arguments, and random requests further away from the ordinary ones.           *)
EXTENDS Admissible, Json, SequencesExt
CONSTANTS Pairs, Triples
VARIABLE out
GenReq(k, r, n) == [k |-> "class", cls |-> k, req |-> r, n |-> n]
Singles == TLCEval(SetToSeq(UNION {{<<k, r>> : r \in OneAway(k)} : k \in Classes}))
Fns == TLCEval(SetToSeq(FnCases))
Classy == TLCEval(SetToSeq({k \in Classes : Cardinality(Slots(k)) > 2}))
Pick(S) == RandomElement(S)
Change(r, k) == LET s == TLCEval(Pick(Slots(k))) IN [r EXCEPT ![s] = Pick(Values(k, s))]
(* a combination of supported values with at most one left to chance *)
LegalTable == TLCEval([k \in Classes |-> [s \in Slots(k) |-> {r[s] : r \in {q \in OneAway(k) : Supported(k, q)}}]])
RECURSIVE Mix(_, _, _)
Mix(k, r, d) == IF d = 0 THEN r
                ELSE LET s == TLCEval(Pick(Slots(k))) IN
                     Mix(k, TLCEval([r EXCEPT ![s] = Pick(LegalTable[k][s])]), d - 1)
Case(i) ==
    IF i <= Len(Singles) THEN GenReq(Singles[i][1], Singles[i][2], 1 + (i % 2))
    ELSE IF i <= Len(Singles) + Len(Fns) THEN [k |-> "fn"] @@ Fns[i - Len(Singles)]
    ELSE LET j == i - Len(Singles) - Len(Fns) k == Classy[(j % Len(Classy)) + 1] IN
         IF j <= Pairs THEN GenReq(k, TLCEval(Change(TLCEval(Change(BaseReq(k), k)), k)), j % 3)
         ELSE GenReq(k, TLCEval(Change(TLCEval(Mix(k, BaseReq(k), 6)), k)), j % 3)
Total == Len(Singles) + Len(Fns) + Pairs + Triples
GInit == out = 1 /\ cls = 0 /\ req = 0 /\ iters = 0 /\ gate = 0 /\ status = 0
GNext == out <= Total /\ out' = out + 1 /\ UNCHANGED avars /\ PrintT("@@CASE " \o ToJson(Case(out)))
GSpec == GInit /\ [][GNext]_<<avars, out>>
================================================================================
