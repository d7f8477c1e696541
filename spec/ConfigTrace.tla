---------------------------- MODULE ConfigTrace ----------------------------
(* Verdict over pairs of executed configurations.  Differences are in 1e-9;    *)
(* -1 where there is nothing to compare.                                        *)
EXTENDS Config, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLE l
Weak(e) == {e.weak[i] : i \in 1..Len(e.weak)}
Tol(w) == IF "limit" \in w THEN 1000000 ELSE IF w # {} THEN 10000 ELSE 1000
(* an eigenvector update leaves the phase of each row open: two different (only *)
(* equivalent) computations may pick different ones                              *)
Gauge(e) == Weak(e) # {} /\ (Pairwise(e.a) \/ Pairwise(e.b))
Clauses(e) ==
    CASE e.ev = "pair" -> Bind(Weak(e), LAMBDA w :
         IF ~(Valid(e.a) /\ Valid(e.b)) \/ Denote(e.a, w) # Denote(e.b, w) THEN {"specification-disagrees"}
         ELSE (IF (e.exca = "") = (e.excb = "") THEN {} ELSE {"only-one-raised"})
              \cup (IF e.exca # "" \/ e.excb # "" THEN {} ELSE
                   (IF (IF Gauge(e) THEN e.outp ELSE e.out) <= Tol(w) THEN {} ELSE {"outputs-differ"})
              \cup (IF w \cap {"norm"} = {} /\ ~Gauge(e) /\ e.par > Tol(w) THEN {"parameters-differ"} ELSE {})
              \cup (IF w \cap {"norm", "profile"} = {} /\ e.loss > Tol(w) THEN {"losses-differ"} ELSE {})
              \cup (IF e.seen[1] = e.seen[2] THEN {} ELSE {"callbacks-differ"})))
      [] e.ev = "niter" -> (IF e.seen = e.want + 1 /\ e.loss \in {0, e.want + 1} THEN {} ELSE {"default-number-of-iterations"})
                           \cup (IF e.out <= 1 THEN {} ELSE {"differs-from-documented-default"})
      [] e.ev = "helper" -> (IF (e.exca = "") = (e.excb = "") THEN {} ELSE {"only-one-raised"})
                            \cup (IF e.exca # "" THEN {"helper-raised"} ELSE {}) \cup (IF e.out <= 1 THEN {} ELSE {"helper-differs"})
TInit == l = 1 /\ c = 0 /\ c0 = 0 /\ used = {} /\ depth = 0
TNext == \/ /\ l <= Len(Trace)
            /\ Bind(Trace[l], LAMBDA e : \A k \in Clauses(e) : PrintT("@@BAD " \o ToJson([i |-> l, clause |-> k])))
            /\ l' = l + 1 /\ UNCHANGED vars
         \/ /\ l = Len(Trace) + 1 /\ PrintT("@@DONE " \o ToString(Len(Trace))) /\ l' = l + 1 /\ UNCHANGED vars
TSpec == TInit /\ [][TNext]_<<vars, l>>
=============================================================================
