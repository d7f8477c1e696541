------------------------------ MODULE FeasibleMC ------------------------------
EXTENDS Feasible
FloorV == <<1, 10>>
FactorsV == {<<0, 1>>, <<1, 2>>, <<2, 1>>}
PowersV == {<<1, 1>>, <<4, 1>>, <<1, 4>>}
===============================================================================
