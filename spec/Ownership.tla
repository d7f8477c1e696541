------------------------------ MODULE Ownership ------------------------------
(* Who may write which array.  Buffers are owned by the caller (handed in or  *)
(* handed out) or private to an object.  An object takes its own copy of the  *)
(* mixture, may share a parameter it only replaces, and may only write in     *)
(* place into a buffer nobody else can see.                                   *)
EXTENDS Integers, Sequences, FiniteSets, TLC
CONSTANTS Buffers, Objects, MaxOps
VARIABLES version,   \* content version of every buffer
          callers,   \* buffers visible to the caller, with the version the caller last saw
          input, state, output,   \* per object: buffer or NONE
          ops, wrote
vars == <<version, callers, input, state, output, ops, wrote>>
NONE == 0
Seen == DOMAIN callers
Used == Seen \cup {input[o] : o \in Objects} \cup {state[o] : o \in Objects} \cup {output[o] : o \in Objects}
Free == Buffers \ Used
Init == /\ version = [b \in Buffers |-> 0]
        /\ callers = [b \in {1, 2} |-> 0]
        /\ input = [o \in Objects |-> NONE] /\ state = [o \in Objects |-> NONE] /\ output = [o \in Objects |-> NONE]
        /\ ops = 0 /\ wrote = {}
Private(o, b) == b # NONE /\ b \notin Seen /\ \A p \in Objects \ {o} : b \notin {input[p], state[p], output[p]}
(* a call starts: the mixture is copied; an initial parameter is copied or shared *)
Begin(o) == /\ ops < MaxOps
            /\ \E x \in Seen, b \in Free :
                 /\ input' = [input EXCEPT ![o] = b]
                 /\ version' = [version EXCEPT ![b] = version[x]]
                 /\ \/ state' = [state EXCEPT ![o] = IF state[o] = NONE THEN b ELSE state[o]]
                    \/ \E s \in Seen : state' = [state EXCEPT ![o] = s]     \* shared, not yet written
            /\ ops' = ops + 1 /\ wrote' = {} /\ UNCHANGED <<callers, output>>
(* an update replaces the parameter by a fresh array, or writes it in place when it is private *)
Replace(o) == \E b \in Free : /\ input[o] # NONE
                              /\ state' = [state EXCEPT ![o] = b]
                              /\ version' = [version EXCEPT ![b] = version[b] + 1]
                              /\ wrote' = {b} /\ ops < MaxOps /\ ops' = ops + 1
                              /\ UNCHANGED <<callers, input, output>>
InPlace(o) == /\ Private(o, state[o]) /\ state[o] # input[o]
              /\ version' = [version EXCEPT ![state[o]] = @ + 1]
              /\ wrote' = {state[o]} /\ ops < MaxOps /\ ops' = ops + 1
              /\ UNCHANGED <<callers, input, state, output>>
(* the call returns: the output becomes visible *)
Return(o) == \E b \in Free : /\ input[o] # NONE
                             /\ output' = [output EXCEPT ![o] = b]
                             /\ callers' = callers @@ (b :> version[b])
                             /\ wrote' = {} /\ ops < MaxOps /\ ops' = ops + 1
                             /\ UNCHANGED <<version, input, state>>
(* a function that is documented to overwrite its argument, or the caller overwriting its own array *)
Overwrite == \E b \in Seen : /\ ops < MaxOps /\ ops' = ops + 1
                             /\ version' = [version EXCEPT ![b] = @ + 1]
                             /\ callers' = [callers EXCEPT ![b] = version[b] + 1]
                             /\ wrote' = {b} /\ UNCHANGED <<input, state, output>>


Next == Overwrite \/ \E o \in Objects : Begin(o) \/ Replace(o) \/ InPlace(o) \/ Return(o)
Spec == Init /\ [][Next]_vars
(* nothing the caller can see differs from what the caller last saw *)
CallerSafe == \A b \in Seen : version[b] = callers[b]
InputPrivate == \A o \in Objects : input[o] # NONE => input[o] \notin Seen
=============================================================================
