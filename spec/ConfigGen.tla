----------------------------- MODULE ConfigGen -----------------------------
(* Random rewriting walks: a configuration and an equivalent one.             *)
EXTENDS Config, Json, SequencesExt
CONSTANTS Cases, MaxLen
VARIABLE out
R(S) == TLCEval(RandomElement(S))
RECURSIVE Pick(_, _)
Pick(x, todo) == IF todo = {} THEN x
                 ELSE Bind(IF "sp" \in todo THEN "sp" ELSE CHOOSE s \in todo : TRUE, LAMBDA s :
                      Bind(R(Spellings(x.cls, s)), LAMBDA v :
                      Bind([x EXCEPT !.o[s] = v], LAMBDA y : Pick(IF R(1..2) = 1 /\ Valid(y) THEN y ELSE x, todo \ {s}))))
RECURSIVE Walk(_, _, _)
Walk(x, w, k) == IF k = 0 THEN [x |-> x, w |-> w]
                 ELSE Bind(Rewrites(x), LAMBDA S : IF S = {} THEN [x |-> x, w |-> w]
                      ELSE Bind({r \in S : r.w # "" \/ r.x.cls # x.cls}, LAMBDA Big :
                           Bind(R(IF Big # {} /\ R(1..3) > 1 THEN Big ELSE S), LAMBDA r : Walk(r.x, w \cup (IF r.w = "" THEN {} ELSE {r.w}), k - 1))))
Order == TLCEval(LET RECURSIVE L(_) L(S) == IF S = {} THEN <<>> ELSE LET k == CHOOSE k \in S : TRUE IN <<k>> \o L(S \ {k}) IN L(Classes))
Case(i) == Bind(Pick(Base(Order[(i % Len(Order)) + 1], R({2, 2, 3})), Slots(Order[(i % Len(Order)) + 1])), LAMBDA b :
           Bind(Walk(b, {}, R(1..MaxLen)), LAMBDA r :
             [id |-> i, a |-> b, b |-> r.x, weak |-> r.w]))
(* Systematic part: every other way of writing what a left-out option means, in a *)
(* configuration where the option matters.                                        *)
Matters(k, s) == Bind([Base(k, IF k \in IPSDTAs \cup MNMFs THEN 2 ELSE 3) EXCEPT !.o["init"] = None], LAMBDA x :
                 IF s \in {"newton", "lqpqm"} THEN [x EXCEPT !.o["sp"] = "IPA"]
                 ELSE IF s = "pair" THEN [x EXCEPT !.o["sp"] = "IP2"]
                 ELSE x)
(* sweeps of the alignment often change nothing: several inputs *)
Repeats(s) == IF s \in {"giter", "liter"} THEN 1..6 ELSE {1}
Written == TLCEval(UNION {UNION {{<<k, s, v[1], v[2]>> : v \in {v \in Spellings(k, s) : v # None /\ None \in Spellings(k, s) /\ Meaning(k, s, v) = Meaning(k, s, None)} \X Repeats(s)} : s \in Slots(k)} : k \in Classes})
WrittenSeq == TLCEval(SetToSeq(Written))
Sys(i) == Bind(WrittenSeq[i], LAMBDA t : Bind(Matters(t[1], t[2]), LAMBDA x :
          [id |-> 100000 + i, a |-> x, b |-> [x EXCEPT !.o[t[2]] = t[3]], weak |-> {}]))
GInit == out = 1 /\ c = 0 /\ c0 = 0 /\ used = {} /\ depth = 0
GNext == out <= Cases + Len(WrittenSeq) /\ out' = out + 1 /\ UNCHANGED vars /\ PrintT("@@CASE " \o ToJson(TLCEval(IF out <= Cases THEN Case(out) ELSE Sys(out - Cases))))
GSpec == GInit /\ [][GNext]_<<vars, out>>
=============================================================================
