------------------------------- MODULE OwnTrace -------------------------------
(* Verdict over recorded operations.  The specification keeps the caller's    *)
(* view: every array the caller holds, and which ones the operation may       *)
(* write.  tracked: number of arrays held before the operation.               *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES l, held
SeqSet(s) == {s[i] : i \in 1..Len(s)}
Holds(e) == IF e.ev \in {"exc", "late"} THEN held ELSE IF e.start = 1 THEN e.tracked ELSE held + e.handed
(* arrays are numbered in the order in which the caller got hold of them *)
Clauses(e) ==
    IF e.ev = "exc" THEN {"raised"}
    (* the caller has overwritten the mixtures it once handed over *)
    ELSE IF e.ev = "late" THEN IF e.moved = <<>> THEN {} ELSE {"mixture-shared-with-the-caller"}
    ELSE (IF e.tracked = Holds(e) THEN {} ELSE {"lost-track"})
         \cup (IF SeqSet(e.changed) \subseteq SeqSet(e.writes) THEN {} ELSE
                 {IF (SeqSet(e.changed) \ SeqSet(e.writes)) \cap SeqSet(e.results) # {} THEN "earlier-result-changed" ELSE "caller-array-changed"})
         \cup (IF e.around = 0 THEN {} ELSE {"memory-around-the-array-changed"})
         \cup (IF e.inplace = 1 THEN {} ELSE {"overwritten-array-is-not-the-result"})
         \cup (IF e.same <= 100 THEN {} ELSE {"depends-on-memory-layout"})
Fresh(e) == IF e.ev \in {"exc", "late"} THEN 0 ELSE e.returned
TInit == l = 1 /\ held = 0
TNext == \/ /\ l <= Len(Trace)
            /\ LET e == Trace[l] IN
                 /\ \A c \in Clauses(e) : PrintT("@@BAD " \o ToJson([i |-> l, clause |-> c]))
                 /\ held' = Holds(e) + Fresh(e)
            /\ l' = l + 1
         \/ /\ l = Len(Trace) + 1 /\ PrintT("@@DONE " \o ToString(Len(Trace))) /\ l' = l + 1 /\ UNCHANGED held
TSpec == TInit /\ [][TNext]_<<l, held>>
=============================================================================
