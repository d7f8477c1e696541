------------------------------- MODULE Flooring --------------------------------
(* Which flooring function an update applies.                                   *)
(*   own    the function held by the method (its constructor argument; "none"   *)
(*          stands for flooring_fn=None, "lib" for the library's default)        *)
(*   arg    what the caller of an update passes: "self", "none" or a function    *)
(* An update resolves its argument once and hands the result down through every *)
(* update it is made of; whatever is floored on the way is floored by it.        *)
EXTENDS Integers, Sequences, FiniteSets, TLC
CONSTANTS Depth, MaxSteps
VARIABLES own, arg, stack, used, steps
fvars == <<own, arg, stack, used, steps>>
Fns == {"own", "other", "lib"}
Resolve(a, o) == IF a = "self" THEN o ELSE a
(* what may be applied: nothing when no flooring is asked for *)
Allowed(a, o) == {Resolve(a, o)} \ {"none"}

FInit == /\ own \in {"own", "lib", "none"} /\ arg \in {"self", "other", "none"}
         /\ stack = <<Resolve(arg, own)>> /\ used = {} /\ steps = 0
Top == stack[Len(stack)]
(* an update calls one of its parts, passing on the function it resolved *)
Descend == /\ Len(stack) < Depth /\ stack' = Append(stack, Resolve(Top, own)) /\ UNCHANGED used
Apply == /\ stack # <<>> /\ used' = used \cup ({Top} \ {"none"}) /\ UNCHANGED stack
Leave == /\ Len(stack) > 1 /\ stack' = SubSeq(stack, 1, Len(stack) - 1) /\ UNCHANGED used
FNext == /\ steps < MaxSteps /\ steps' = steps + 1 /\ UNCHANGED <<own, arg>> /\ (Descend \/ Apply \/ Leave)
FSpec == FInit /\ [][FNext]_fvars
OnlyGiven == used \subseteq Allowed(arg, own)
NoneMeansNone == Resolve(arg, own) = "none" => used = {}
Steady == \A i \in 1..Len(stack) : stack[i] = stack[1]
================================================================================
