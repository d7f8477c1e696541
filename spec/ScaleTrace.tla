------------------------------ MODULE ScaleTrace ------------------------------
(* Verdict over recorded uses of the scale-restoration functions (exact      *)
(* Gaussian-integer results) and of the methods that use them.               *)
EXTENDS Scale, TLC, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLE l
Tol == 10        \* 1e-8 (units of 1e-9)
MTol == 1000     \* 1e-6 for whole runs
Chan(r, n) == IF r = -1 THEN n ELSE r + 1
Refs(e) == IF e.ref = -2 THEN [r \in 1..e.n |-> r] ELSE <<Chan(e.ref, e.n)>>
(* exact projected filter / signal of a bin of unit determinant               *)
PBRow(F, r) == CMatScale(Conj(Det(F)), PBNum(F, r))
FilterOk(e) ==
    LET R == Refs(e) IN
    /\ Len(e.out) = Len(R)
    /\ \A k \in 1..Len(R) : /\ Len(e.out[k]) = e.nb
                            /\ \A b \in 1..e.nb : e.out[k][b] = PBRow(e.W[b], R[k])
SignalOk(e) ==
    LET R == Refs(e) IN
    /\ Len(e.out) = Len(R)
    /\ \A k \in 1..Len(R) : /\ Len(e.out[k]) = e.nb
                            /\ \A b \in 1..e.nb : e.out[k][b] = MMul(PBRow(e.W[b], R[k]), e.X[b])
(* t times the minimal-distortion signal: sum_t x conj(u) * u (|u| = 1)       *)
MdpOk(e) ==
    LET R == Refs(e) IN
    /\ Len(e.out) = Len(R)
    /\ \A k \in 1..Len(R) : /\ Len(e.out[k]) = e.nb
          /\ \A b \in 1..e.nb : e.out[k][b] =
                [s \in 1..e.n |-> Bind(MDPNum(e.U[b][s], e.X[b][R[k]]), LAMBDA c : TLCEval([t \in 1..e.t |-> CMul(c, e.U[b][s][t])]))]
PBNames == {"True", "projection_back", "projection-back", "PB"}
MDPNames == {"minimal_distortion_principle", "minimal-distortion-principle", "MDP"}
Known(s) == s \in PBNames \cup MDPNames \cup {"False"}
MethodClauses(e) ==
    IF ~Known(e.scale) THEN (IF e.raised = "ValueError" THEN {} ELSE {"unknown-technique-accepted"})
    ELSE IF e.raised # "" THEN {"raised"}
    ELSE IF e.scale = "False" THEN (IF e.none <= MTol THEN {} ELSE {"scale-changed-although-disabled"})
    ELSE (IF e.scale \in PBNames
          THEN (IF e.pb <= MTol THEN {} ELSE {"not-the-projection-back-of-the-result"})
               \cup (IF e.sum <= MTol THEN {} ELSE {"sources-do-not-sum-to-reference-channel"})
               \cup (IF e.again <= MTol THEN {} ELSE {"projection-back-not-idempotent"})
          ELSE (IF e.mdp <= MTol THEN {} ELSE {"not-the-minimal-distortion-of-the-result"})
               \cup (IF e.again <= MTol THEN {} ELSE {"minimal-distortion-not-idempotent"}))
         \cup (IF e.factor <= MTol THEN {} ELSE {"more-than-one-factor-per-source-and-bin"})
         \cup (IF e.loss <= MTol THEN {} ELSE {"loss-history-changed"})
Clauses(e) ==
    CASE e.ev = "exc" -> {"raised"}
      [] e.ev = "filter" -> (IF FilterOk(e) /\ e.resid <= Tol THEN {} ELSE {"filter-projection-differs"})
      [] e.ev = "signal" -> (IF SignalOk(e) /\ e.resid <= Tol THEN {} ELSE {"signal-projection-differs"})
      [] e.ev = "mdp" -> (IF MdpOk(e) /\ e.resid <= Tol THEN {} ELSE {"minimal-distortion-differs"})
      [] e.ev = "method" -> MethodClauses(e)
TInit == l = 1 /\ W = None /\ D = None /\ ref = 0 /\ X = None /\ y = None /\ x = None
TNext == \/ /\ l <= Len(Trace)
            /\ LET e == Trace[l] IN \A c \in Clauses(e) : PrintT("@@BAD " \o ToJson([i |-> l, clause |-> c]))
            /\ l' = l + 1 /\ UNCHANGED vars
         \/ /\ l = Len(Trace) + 1 /\ PrintT("@@DONE " \o ToString(Len(Trace))) /\ l' = l + 1 /\ UNCHANGED vars
TSpec == TInit /\ [][TNext]_<<vars, l>>
=============================================================================
