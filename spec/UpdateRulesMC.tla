---- MODULE UpdateRulesMC ----
EXTENDS UpdateRules
EntriesV == {Zero, One, Imag}
EntriesW == {Zero, One, Imag, <<-1, 1>>}
CovEntriesV == {Zero, One, <<2, 0>>, Imag, <<0, -1>>}
SamplesV == {Zero, One, Imag, <<-1, 1>>}
SamplesW == {Zero, One, Imag}
CovReal == {Zero, One, <<2, 0>>}
EntriesReal == {Zero, One}
Covs3 == {[i \in 1..3 |-> [j \in 1..3 |-> IF i = j THEN <<2, 0>> ELSE IF <<i, j>> \in S \/ <<j, i>> \in S THEN One ELSE Zero]] :
             S \in SUBSET {<<1, 2>>, <<2, 3>>}}
====
