---------------------------- MODULE DatasetTrace ----------------------------
(* Verdict over recorded histories.  The specification keeps, per directory,   *)
(* which archives have arrived and which answers have been given.              *)
EXTENDS DatasetCacheMC, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES l, have
Needs(r) == {"dev1"} \cup (IF r.conv THEN {ToString(r.rev)} ELSE {})
Key(r) == [k \in {"tag", "n", "rev", "dur", "conv"} |-> r[k]]
Warm(e, h) == \A a \in Needs(e.r) : <<e.root, a>> \in h
Served(e) == {<<e.root, e.served[i]>> : i \in 1..Len(e.served)}
Clauses(e, h) ==
    IF e.op # "ask" THEN {}
    ELSE IF ~Valid(e.r) THEN IF e.raised = 1 THEN {} ELSE {"invalid-request-answered"}
    ELSE IF e.raised = 1 THEN IF e.net = "up" \/ Warm(e, h) THEN {"valid-request-refused"} ELSE {}
    ELSE LET want == Answer(e.r) IN
         (IF e.rate = want.rate THEN {} ELSE {"sampling-rate"})
         \cup (IF e.shape = want.shape THEN {} ELSE {"shape"})
         \cup (IF e.image # want.image THEN {"specification-disagrees"} ELSE
               IF e.shape = want.shape /\ e.err > 20 THEN {"contents"} ELSE {})          \* 1e-3 units
         \cup (IF e.fresh <= 1 THEN {} ELSE {"differs-from-fresh-cache"})
TInit == Init /\ l = 1 /\ have = {}
TNext == \/ /\ l <= Len(Trace) /\ l' = l + 1 /\ UNCHANGED vars
            /\ LET e == Trace[l]
                   h == IF e.start = 1 THEN {} ELSE have IN
               /\ \A k \in Clauses(e, h) : PrintT("@@BAD " \o ToJson([i |-> l, clause |-> k]))
               /\ have' = IF e.op = "ask" THEN h \cup Served(e) ELSE {x \in h : x[1] # e.root \/ e.what = "npz"}
         \/ /\ l = Len(Trace) + 1 /\ PrintT("@@DONE " \o ToString(Len(Trace))) /\ l' = l + 1 /\ UNCHANGED <<vars, have>>
TSpec == TInit /\ [][TNext]_<<vars, l, have>>
=============================================================================
