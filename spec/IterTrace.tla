------------------------------ MODULE IterTrace ------------------------------
(* Validates recorded executions against IterativeMethod.  Every event is    *)
(* consumed: a mismatch is reported with the clause that fails and the rest  *)
(* of that trace is skipped (total verdict).                                 *)
EXTENDS IterativeMethod, TLC, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES l, skip, quiet, nbad
tvars == <<vars, l, skip, quiet, nbad>>

E0 == Trace[l]
Has(e, f) == f \in DOMAIN e
Member(x, s) == \E i \in 1..Len(s) : s[i] = x

TInit == /\ cfg = [o \in Objs |-> [rec |-> FALSE, ncb |-> 0]]
         /\ pos = [o \in Objs |-> 0] /\ loss = [o \in Objs |-> <<>>]
         /\ seen = [o \in Objs |-> <<>>] /\ stack = <<>>
         /\ calls = [o \in Objs |-> <<>>]
         /\ base = [o \in Objs |-> 0] /\ hand = 0
         /\ l = 1 /\ skip = FALSE /\ quiet = FALSE /\ nbad = 0

New(e) == /\ cfg' = [o \in Objs |-> IF o <= Len(e.cfg)
                       THEN [rec |-> e.cfg[o].rec = 1, ncb |-> e.cfg[o].ncb]
                       ELSE [rec |-> FALSE, ncb |-> 0]]
          /\ pos' = [o \in Objs |-> 0] /\ loss' = [o \in Objs |-> <<>>]
          /\ seen' = [o \in Objs |-> <<>>] /\ stack' = <<>>
          /\ calls' = [o \in Objs |-> <<>>]
          /\ base' = [o \in Objs |-> 0] /\ hand' = 0
          /\ skip' = FALSE /\ quiet' = (e.quiet = 1)
          /\ l' = l + 1 /\ UNCHANGED nbad

(* what the specification expects next *)
Want == IF stack = <<>> THEN "begin"
        ELSE IF Top.st = "eval" THEN "loss"
        ELSE IF Top.st = "cb" THEN "cb"
        ELSE IF Top.st = "incb" THEN "endcb"
        ELSE IF Top.todo > 0 THEN "update" ELSE "ret"
Silent == /\ stack # <<>>
          /\ \/ Want = "loss" /\ (quiet \/ ~cfg[Top.o].rec)
             \/ Want = "update" /\ quiet

NL(o) == IF cfg[o].rec THEN Len(loss[o]) ELSE -1
LossesOk(e) == ~Has(e, "losses") \/ ~cfg[e.o].rec
               \/ (/\ Len(e.losses) = Len(loss[e.o])
                   /\ \A k \in 1..Len(e.losses) : Member(loss[e.o][k], e.losses[k]))
LossAtOk(e) == ~Has(e, "lossat") \/ ~cfg[e.o].rec \/ Len(loss[e.o]) = 0
               \/ Member(loss[e.o][Len(loss[e.o])], e.lossat)

Clause(e) ==
    IF e.ev = "exc" THEN "raised"
    ELSE IF Has(e, "env") /\ (IF Has(e, "env") THEN Len(e.env) > 0 ELSE FALSE) THEN "changed:" \o e.env[1]
    ELSE IF Has(e, "rng") /\ (IF Has(e, "rng") THEN ~Member(pos[e.o], e.rng) ELSE FALSE) THEN "own-generator-state"
    ELSE IF e.ev = "begin" THEN
        (IF stack = <<>> \/ (IF stack = <<>> THEN FALSE ELSE Top.st = "incb") THEN "ok" ELSE "call-nesting")
    ELSE IF e.ev = "hand" THEN "ok"
    ELSE IF e.ev = "step" THEN (IF Member(pos[e.o] + 1, e.pos) THEN "ok" ELSE "state-after-manual-update")
    ELSE IF stack = <<>> THEN "event-outside-call"
    ELSE IF e.ev # Want THEN "order:" \o Want \o "-expected-got-" \o e.ev
    ELSE IF e.o # Top.o THEN "wrong-object"
    ELSE IF e.ev = "cb" /\ e.j # Top.j THEN "callback-order"
    ELSE IF e.ev \in {"cb", "ret"} /\ e.nloss # NL(e.o) THEN "loss-length"
    ELSE IF e.ev \in {"cb", "ret"} /\ ~Member(pos[e.o], e.pos) THEN "state"
    ELSE IF e.ev = "update" /\ ~Member(pos[e.o] + 1, e.pos) THEN "state"
    ELSE IF e.ev = "loss" /\ ~Member(pos[e.o], e.pos) THEN "loss-of-other-state"
    ELSE IF e.ev \in {"cb", "ret"} /\ ~LossAtOk(e) THEN "last-loss-value"
    ELSE IF e.ev = "ret" /\ ~LossesOk(e) THEN "loss-history"
    ELSE "ok"

Act(e) == IF e.ev = "begin" THEN
              /\ stack' = Append(stack, [o |-> e.o, todo |-> e.n, st |-> FirstStage(e.init = 1), j |-> 1])
              /\ calls' = [calls EXCEPT ![e.o] = Append(@, [n |-> e.n, init |-> e.init = 1])]
              /\ pos' = IF Has(e, "reset") THEN [pos EXCEPT ![e.o] = 0] ELSE pos
              /\ UNCHANGED <<cfg, loss, seen, base, hand>>
          ELSE IF e.ev = "hand" THEN Handover(e.o)
          ELSE IF e.ev = "step" THEN Manual(e.o)
          ELSE IF e.ev = "loss" THEN Eval
          ELSE IF e.ev = "cb" THEN EnterCb
          ELSE IF e.ev = "endcb" THEN LeaveCb
          ELSE IF e.ev = "update" THEN Update
          ELSE Return

Consume == LET e == E0 IN
    IF e.ev = "new" THEN New(e)
    ELSE IF skip THEN l' = l + 1 /\ UNCHANGED <<vars, skip, quiet, nbad>>
    ELSE IF Silent /\ e.ev # "exc" THEN
         /\ (IF Want = "loss" THEN Eval ELSE Update)
         /\ UNCHANGED <<l, skip, quiet, nbad>>
    ELSE LET c == Clause(e) IN
         IF c = "ok" THEN Act(e) /\ l' = l + 1 /\ UNCHANGED <<skip, quiet, nbad>>
         ELSE /\ PrintT("@@BAD " \o ToJson([i |-> l, clause |-> c]))
              /\ l' = l + 1 /\ skip' = TRUE /\ nbad' = nbad + 1
              /\ UNCHANGED <<vars, quiet>>

Finish == /\ l = Len(Trace) + 1
          /\ PrintT("@@DONE " \o ToString(Len(Trace)))
          /\ l' = l + 1 /\ UNCHANGED <<vars, skip, quiet, nbad>>
TNext == (l <= Len(Trace) /\ Consume) \/ Finish
TSpec == TInit /\ [][TNext]_tvars
(* the specification's own invariants are re-evaluated on every real trace   *)
TInv == skip \/ (LossExact /\ NotifiedExact /\ CbOrder)
=============================================================================
