----------------------------- MODULE FlooringGen -------------------------------
(* Who is called with which flooring: whole runs, single updates, functions.    *)
EXTENDS Flooring, Json
CONSTANTS Rounds
VARIABLE out
Kinds == <<[kind |-> "run", own |-> "own", arg |-> "self"], [kind |-> "run", own |-> "none", arg |-> "self"],
           [kind |-> "run", own |-> "lib", arg |-> "self"],
           [kind |-> "update", own |-> "own", arg |-> "self"], [kind |-> "update", own |-> "own", arg |-> "other"],
           [kind |-> "update", own |-> "own", arg |-> "none"], [kind |-> "update", own |-> "lib", arg |-> "other"],
           [kind |-> "update", own |-> "none", arg |-> "other"], [kind |-> "update", own |-> "lib", arg |-> "none"],
           [kind |-> "update", own |-> "none", arg |-> "self"],
           [kind |-> "function", own |-> "lib", arg |-> "self"], [kind |-> "function", own |-> "lib", arg |-> "other"],
           [kind |-> "function", own |-> "lib", arg |-> "none"]>>
N == Len(Kinds)
Case(i) == LET k == Kinds[((i - 1) % N) + 1] r == (i - 1) \div N IN
           [id |-> i, kind |-> k.kind, own |-> k.own, arg |-> k.arg, allowed |-> Allowed(k.arg, k.own), round |-> r]
GInit == out = 1 /\ own = 0 /\ arg = 0 /\ stack = <<>> /\ used = {} /\ steps = 0
GNext == out <= Rounds * N /\ out' = out + 1 /\ UNCHANGED fvars /\ PrintT("@@CASE " \o ToJson(Case(out)))
GSpec == GInit /\ [][GNext]_<<fvars, out>>
================================================================================
