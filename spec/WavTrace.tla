------------------------------- MODULE WavTrace -------------------------------
(* Verdict over files written and reads performed by the library.            *)
EXTENDS Wav, TLC, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLE l
Abs(x) == IF x < 0 THEN -x ELSE x
Min(a, b) == IF a < b THEN a ELSE b
Max(a, b) == IF a > b THEN a ELSE b
(* a floating-point sample is v / 2^20: 32 v-units are one 16-bit step        *)
FloatOk(s, v) == Abs(32 * s - Max(-1048576, Min(1048544, v))) < 32
WriteClauses(e) ==
    IF e.raised = 1 THEN (IF e.allowed = 1 THEN {"write-refused"} ELSE
                            IF e.kept = 1 THEN {} ELSE {"refused-write-changed-the-file"})
    ELSE IF e.allowed = 0 THEN {"unsupported-write-accepted"}
    ELSE LET h == HeaderClause(e.bytes, e.ch, e.rate, e.w, Len(e.frames)) IN
         IF h # "ok" THEN {h}
         ELSE IF e.float = 0 THEN
              (IF Frames(e.bytes, 0, NONE) = e.frames THEN {} ELSE {"integer-samples-exact"})
         ELSE LET f == Frames(e.bytes, 0, NONE) IN
              IF \A i \in 1..Len(f) : \A c \in 1..e.ch : FloatOk(f[i][c], e.frames[i][c]) THEN {}
              ELSE {"float-samples-within-one-step"}
ReadClauses(e) ==
    LET good == Readable(e.bytes) /\ (IF Readable(e.bytes) THEN InRange(e.bytes, e.off, e.num) ELSE FALSE) IN
    IF e.raised = 1 THEN (IF (IF good THEN Complete(e.bytes) ELSE FALSE) THEN {"valid-read-refused"} ELSE {})
    ELSE IF ~(IF good THEN Present(e.bytes, e.off, e.num) ELSE FALSE) THEN {"misread-instead-of-refused"}
    ELSE LET ch == Field(e.bytes, 22, 2)
             w == Frames(e.bytes, e.off, e.num)
             n == Len(w)
             flat1 == ch = 1 /\ e.two # 1
             shape == IF flat1 THEN <<n>> ELSE IF e.first = 1 THEN <<ch, n>> ELSE <<n, ch>>
             want == IF flat1 THEN [i \in 1..n |-> w[i][1]]
                     ELSE IF e.first = 1 THEN [c \in 1..ch |-> [i \in 1..n |-> w[i][c]]] ELSE w
         IN (IF e.rate = Field(e.bytes, 24, 4) THEN {} ELSE {"sample-rate-read"})
            \cup (IF e.shape = shape THEN (IF e.out = want THEN {} ELSE {"samples-read"}) ELSE {"shape-read"})
            \cup (IF e.detached = 1 THEN {} ELSE {"result-tied-to-file"})
RewriteClauses(e) == IF e.raised = 1 THEN {"rewrite-refused"}
                     ELSE IF e.before = e.after THEN {} ELSE {"rewrite-not-bit-identical"}
Clauses(e) == IF e.ev = "write" THEN WriteClauses(e) ELSE IF e.ev = "read" THEN ReadClauses(e) ELSE RewriteClauses(e)
TInit == l = 1 /\ file = <<>> /\ src = <<>> /\ req = <<>> /\ res = <<>>
TNext == \/ /\ l <= Len(Trace)
            /\ LET e == Trace[l] IN \A c \in Clauses(e) : PrintT("@@BAD " \o ToJson([i |-> l, clause |-> c]))
            /\ l' = l + 1 /\ UNCHANGED vars
         \/ /\ l = Len(Trace) + 1 /\ PrintT("@@DONE " \o ToString(Len(Trace))) /\ l' = l + 1 /\ UNCHANGED vars
TSpec == TInit /\ [][TNext]_<<vars, l>>
=============================================================================
