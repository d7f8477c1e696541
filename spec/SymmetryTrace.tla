---------------------------- MODULE SymmetryTrace ----------------------------
(* Verdict over pairs of runs: on a mixture and on the transformed mixture.    *)
(* y: distance of the separated signals from the transformed ones; par: of the *)
(* source parameters; grow: change of loss increments; shift: change of loss    *)
EXTENDS Symmetry, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLE l
Isometric(e) == {e.gens[i] : i \in 1..Len(e.gens)} \cap {"shear", "shearr", "scale"} = {}
Clauses(e) ==
    CASE e.ev = "exc" -> IF Carried(e) THEN {"raised"} ELSE {}
      [] e.ev = "pair" ->
         IF ~Carried(e) THEN {} ELSE
           (IF e.y <= 1000 THEN {} ELSE {"separated-signals-differ"})
           \cup (IF e.par <= 1000 THEN {} ELSE {"parameters-differ"})
           \cup (IF e.grow <= 1000 THEN {} ELSE {"loss-moves-differently"})
           \cup (IF Isometric(e) /\ e.shift > 1000 THEN {"loss-changed"} ELSE {})
      [] e.ev = "word" -> IF e.resid <= 1 THEN {} ELSE {"composition-differs"}
TInit == l = 1 /\ x0 = 0 /\ x = 0 /\ W0 = 0 /\ W = 0 /\ g = 0 /\ steps = 0
TNext == \/ /\ l <= Len(Trace)
            /\ LET e == Trace[l] IN \A c \in Clauses(e) : PrintT("@@BAD " \o ToJson([i |-> l, clause |-> c]))
            /\ l' = l + 1 /\ UNCHANGED vars
         \/ /\ l = Len(Trace) + 1 /\ PrintT("@@DONE " \o ToString(Len(Trace))) /\ l' = l + 1 /\ UNCHANGED vars
TSpec == TInit /\ [][TNext]_<<vars, l>>
===============================================================================
