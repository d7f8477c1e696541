------------------------------- MODULE IterGen -------------------------------
(* Behaviours of IterativeMethod printed as programs for the replay driver.  *)
EXTENDS IterativeMethod, TLC, Json
VARIABLE hist
GInit == Init /\ hist = <<>>
GNext == \/ \E o \in Objs, n \in 0..MaxIter, i \in BOOLEAN :
               /\ Begin(o, n, i)
               /\ hist' = Append(hist, [op |-> "call", d |-> Len(stack), o |-> o, n |-> n, init |-> IF i THEN 1 ELSE 0,
                            at |-> IF stack = <<>> THEN 0 ELSE Len(seen[Top.o])])
         \/ \E o \in Objs : Handover(o) /\ hist' = Append(hist, [op |-> "hand", d |-> 0, o |-> o, n |-> 0, init |-> 0, at |-> 0])
         \/ \E o \in Objs : Manual(o) /\ hist' = Append(hist, [op |-> "step", d |-> 0, o |-> o, n |-> 1, init |-> 0, at |-> 0])
         \/ (Eval \/ EnterCb \/ LeaveCb \/ Update \/ Return) /\ UNCHANGED hist
GSpec == GInit /\ [][GNext]_<<vars, hist>>
CfgRec(o) == [rec |-> IF cfg[o].rec THEN 1 ELSE 0, ncb |-> cfg[o].ncb]
CallOps == Len(SelectSeq(hist, LAMBDA h : h.op = "call"))
Bound == CallOps <= MaxCalls
(* emitted at the end of every complete history of MaxCalls calls            *)
Emit == (CallOps = MaxCalls /\ stack = <<>> /\ hist[Len(hist)].op = "call")
          => PrintT("@@CASE " \o ToJson([hist |-> hist, cfg |-> [o \in Objs |-> CfgRec(o)]]))
=============================================================================
