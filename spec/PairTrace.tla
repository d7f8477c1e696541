------------------------------ MODULE PairTrace ------------------------------
(* Verdict over recorded selector outputs and pairwise updates.              *)
EXTENDS PairSelect, TLC, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLE l
Has(e, f) == f \in DOMAIN e
Wanted(r) == IF r.fn = "custom" THEN r.pairs
             ELSE IF r.fn = "combination" THEN Combination(r.n)
             ELSE Sequential(r.n, IF r.stop = -1 THEN r.n ELSE r.stop, r.step, r.sort = 1)
Norm(p, m) == <<IF p[1] < 0 THEN m + p[1] ELSE p[1], IF p[2] < 0 THEN m + p[2] ELSE p[2]>>
SeqSet(s) == {s[i] : i \in 1..Len(s)}
(* rows changed between two consecutive requests for a pair belong to the pair worked on *)
PartialOk(e, ps) == \A k \in 1..Len(e.partial) : SeqSet(e.partial[k]) \subseteq Touched(SubSeq(ps, 1, IF k <= Len(ps) THEN k ELSE Len(ps)))
Clauses(e) ==
  LET w == Wanted(e.req) IN
  IF e.ev = "exc" THEN {"raised"}
  ELSE IF e.ev = "select" THEN
     IF e.out = w THEN {} ELSE {IF Len(e.out) # Len(w) THEN "number-of-pairs" ELSE "pairs"}
  ELSE \* an iteration of a pairwise method
     (IF Len(e.asked) = e.iters THEN {} ELSE {"selector-asked-once-per-iteration"})
     \cup (IF \A k \in 1..Len(e.asked) : e.asked[k] = e.req.n THEN {} ELSE {"number-of-sources-given-to-selector"})
     \cup (IF e.pulled = [k \in 1..(e.iters * Len(w)) |-> w[((k - 1) % Len(w)) + 1]] THEN {} ELSE {"pairs-visited"})
     \cup (IF e.steer = 1 THEN (IF e.resid <= 1000 THEN {} ELSE {"sources-outside-pairs-steered-by-pair-only"})
           ELSE (IF SeqSet(e.changed) = Touched(w) THEN {}
                 ELSE IF SeqSet(e.changed) \subseteq Touched(w) THEN {"pair-not-updated"} ELSE {"outside-source-updated"})
                \cup (IF PartialOk(e, w) THEN {} ELSE {"updated-out-of-order"}))
     \cup (IF e.compose <= 1000 THEN {} ELSE {"order-of-pairs"})
     \cup (IF e.same <= 1000 THEN {} ELSE {"default-selector"})
TInit == l = 1 /\ n = 0 /\ sel = <<>> /\ todo = <<>> /\ done = <<>> /\ iter = 0 /\ ver = <<>>
TNext == \/ /\ l <= Len(Trace)
            /\ LET e == Trace[l] IN \A c \in Clauses(e) : PrintT("@@BAD " \o ToJson([i |-> l, clause |-> c]))
            /\ l' = l + 1 /\ UNCHANGED vars
         \/ /\ l = Len(Trace) + 1 /\ PrintT("@@DONE " \o ToString(Len(Trace))) /\ l' = l + 1 /\ UNCHANGED vars
TSpec == TInit /\ [][TNext]_<<vars, l>>
=============================================================================
