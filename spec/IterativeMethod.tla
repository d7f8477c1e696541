--------------------------- MODULE IterativeMethod ---------------------------
(* The life of separation objects: calls, updates, loss records, callback    *)
(* notifications, nested calls made from callbacks.  One action per          *)
(* observable step of ssspy.bss.base.IterativeMethodBase.__call__.           *)
(* The state of an object is abstracted to its position on the orbit         *)
(* init, U(init), U(U(init)), ... i.e. the number of updates applied.        *)
EXTENDS Integers, Sequences, FiniteSets

CONSTANTS Objs,      \* object names
          MaxIter,   \* largest n_iter of one call
          MaxCalls,  \* number of calls in a history
          MaxCb,     \* largest number of callbacks
          MaxHand    \* number of handovers / manual steps in a history

VARIABLES cfg,    \* per object [rec, ncb]
          pos,    \* updates applied so far
          loss,   \* positions at which the loss was recorded, in order
          seen,   \* notifications <<callback, position, length of the loss list>>
          stack,  \* frames of running calls, innermost last
          calls,  \* completed/started calls, per object: sequence of [n, init]
          base,   \* position at which the object took over (fresh object given saved parameters)
          hand    \* number of handovers and manual steps so far

vars == <<cfg, pos, loss, seen, stack, calls, base, hand>>

Cfgs == [rec : BOOLEAN, ncb : 0..MaxCb]

RECURSIVE SumN(_)
SumN(cs) == IF cs = <<>> THEN 0 ELSE Head(cs).n + SumN(Tail(cs))
RECURSIVE SumE(_)
SumE(cs) == IF cs = <<>> THEN 0
            ELSE Head(cs).n + (IF Head(cs).init THEN 1 ELSE 0) + SumE(Tail(cs))

InStack(o) == \E i \in 1..Len(stack) : stack[i].o = o
Top == stack[Len(stack)]
SetTop(f) == [stack EXCEPT ![Len(stack)] = f]
TotalCalls == LET S[x \in SUBSET Objs] ==
                    IF x = {} THEN 0
                    ELSE LET o == CHOOSE y \in x : TRUE IN Len(calls[o]) + S[x \ {o}]
              IN S[Objs]

(* ---- pure step function of one frame: shared with the trace specification *)
(* stages: eval (record the loss), cb (notify callback j), upd, ret          *)
AfterEval(c) == IF c.ncb > 0 THEN "cb" ELSE "upd"
FirstStage(init) == IF init THEN "eval" ELSE "upd"

Init == /\ cfg \in [Objs -> Cfgs]
        /\ pos = [o \in Objs |-> 0]
        /\ loss = [o \in Objs |-> <<>>]
        /\ seen = [o \in Objs |-> <<>>]
        /\ stack = <<>>
        /\ calls = [o \in Objs |-> <<>>]
        /\ base = [o \in Objs |-> 0]
        /\ hand = 0

(* A call starts at top level, or from inside a callback of another object.  *)
Begin(o, n, init) ==
    /\ ~InStack(o)
    /\ TotalCalls < MaxCalls
    /\ IF stack = <<>> THEN TRUE ELSE Top.st = "incb"
    /\ stack' = Append(stack, [o |-> o, todo |-> n, st |-> FirstStage(init), j |-> 1])
    /\ calls' = [calls EXCEPT ![o] = Append(@, [n |-> n, init |-> init])]
    /\ UNCHANGED <<cfg, pos, loss, seen, base, hand>>

Eval == /\ stack # <<>> /\ Top.st = "eval"
        /\ loss' = IF cfg[Top.o].rec THEN [loss EXCEPT ![Top.o] = Append(@, pos[Top.o])] ELSE loss
        /\ stack' = SetTop([Top EXCEPT !.st = AfterEval(cfg[Top.o]), !.j = 1])
        /\ UNCHANGED <<cfg, pos, seen, calls, base, hand>>

EnterCb == /\ stack # <<>> /\ Top.st = "cb"
           /\ seen' = [seen EXCEPT ![Top.o] = Append(@, <<Top.j, pos[Top.o], Len(loss[Top.o])>>)]
           /\ stack' = SetTop([Top EXCEPT !.st = "incb"])
           /\ UNCHANGED <<cfg, pos, loss, calls, base, hand>>

LeaveCb == /\ stack # <<>> /\ Top.st = "incb"
           /\ stack' = SetTop(IF Top.j < cfg[Top.o].ncb
                              THEN [Top EXCEPT !.st = "cb", !.j = @ + 1]
                              ELSE [Top EXCEPT !.st = "upd"])
           /\ UNCHANGED <<cfg, pos, loss, seen, calls, base, hand>>

Update == /\ stack # <<>> /\ Top.st = "upd" /\ Top.todo > 0
          /\ pos' = [pos EXCEPT ![Top.o] = @ + 1]
          /\ stack' = SetTop([Top EXCEPT !.st = "eval", !.todo = @ - 1])
          /\ UNCHANGED <<cfg, loss, seen, calls, base, hand>>

Return == /\ stack # <<>> /\ Top.st = "upd" /\ Top.todo = 0
          /\ stack' = SubSeq(stack, 1, Len(stack) - 1)
          /\ UNCHANGED <<cfg, pos, loss, seen, calls, base, hand>>

(* A fresh object is given the saved parameters and continues in place of o. *)
Handover(o) == /\ ~InStack(o) /\ stack = <<>> /\ hand < MaxHand
               /\ calls[o] # <<>>
               /\ base' = [base EXCEPT ![o] = pos[o]]
               /\ loss' = [loss EXCEPT ![o] = <<>>]
               /\ seen' = [seen EXCEPT ![o] = <<>>]
               /\ calls' = [calls EXCEPT ![o] = <<>>]
               /\ hand' = hand + 1
               /\ UNCHANGED <<cfg, pos, stack>>
(* The user performs one update by hand: no loss, no callback.               *)
Manual(o) == /\ ~InStack(o) /\ stack = <<>> /\ hand < MaxHand
             /\ calls[o] # <<>>
             /\ pos' = [pos EXCEPT ![o] = @ + 1]
             /\ base' = [base EXCEPT ![o] = @ + 1]
             /\ hand' = hand + 1
             /\ UNCHANGED <<cfg, loss, seen, stack, calls>>

Next == \/ \E o \in Objs : Handover(o) \/ Manual(o)
        \/ \E o \in Objs, n \in 0..MaxIter, i \in BOOLEAN : Begin(o, n, i)
        \/ Eval \/ EnterCb \/ LeaveCb \/ Update \/ Return

Spec == Init /\ [][Next]_vars /\ WF_vars(Eval \/ EnterCb \/ LeaveCb \/ Update \/ Return)

(* ------------------------------------------------------------ properties  *)
Idle(o) == ~InStack(o)

(* C01: counts *)
UpdatesExact == \A o \in Objs : Idle(o) => pos[o] = base[o] + SumN(calls[o])
LossExact == \A o \in Objs : Idle(o) =>
               Len(loss[o]) = IF cfg[o].rec THEN SumE(calls[o]) ELSE 0
NotifiedExact == \A o \in Objs : Idle(o) => Len(seen[o]) = cfg[o].ncb * SumE(calls[o])
(* C01: order: callbacks come in registration order and see the record made just before *)
CbOrder == \A o \in Objs : \A k \in 1..Len(seen[o]) :
             /\ seen[o][k][1] = ((k - 1) % cfg[o].ncb) + 1
             /\ cfg[o].rec => (/\ seen[o][k][3] > 0
                               /\ loss[o][seen[o][k][3]] = seen[o][k][2])
(* C02: a history whose only initial evaluation is the first one records 0..n *)
OneInitial(o) == calls[o] # <<>> /\ calls[o][1].init /\ \A k \in 2..Len(calls[o]) : ~calls[o][k].init
SplitInvariant == \A o \in Objs : (Idle(o) /\ cfg[o].rec /\ OneInitial(o) /\ hand = 0) =>
                     loss[o] = [k \in 1..(SumN(calls[o]) + 1) |-> k - 1]
(* C17: a step touches only the innermost running object *)
Isolation == [][\A o \in Objs : (pos'[o] # pos[o] \/ loss'[o] # loss[o] \/ seen'[o] # seen[o])
                    => (hand' # hand \/ (stack # <<>> /\ Top.o = o))]_vars
(* C17: observing does not change the orbit position *)
ObserverPassive == [][pos' # pos => (hand' # hand \/ (stack # <<>> /\ Top.st = "upd"))]_vars
GrowOnly == [][\A o \in Objs : /\ pos'[o] >= pos[o]
                               /\ hand' # hand \/ (/\ Len(loss'[o]) >= Len(loss[o])
                                  /\ SubSeq(loss'[o], 1, Len(loss[o])) = loss[o])]_vars
Terminates == <>[](TotalCalls < MaxCalls \/ stack = <<>>)
=============================================================================
