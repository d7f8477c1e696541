------------------------------- MODULE FramesGen -------------------------------
(* Plans: every original frame the same number of times, silence in between.     *)
EXTENDS Frames, Json
CONSTANTS Rounds
VARIABLE out
Pick(S) == RandomElement(S)
RECURSIVE Bag(_, _), Shuffle(_)
Bag(T, k) == IF k = 0 THEN <<>> ELSE [i \in 1..T |-> i] \o Bag(T, k - 1)
Shuffle(s) == IF s = <<>> THEN <<>> ELSE
    LET i == TLCEval(Pick(1..Len(s))) IN <<s[i]>> \o Shuffle(TLCEval(SubSeq(s, 1, i - 1) \o SubSeq(s, i + 1, Len(s))))
Each(T, k) == [i \in 1..(T * k) |-> ((i - 1) \div k) + 1]
Zeros(z) == [i \in 1..z |-> 0]
Shapes == <<"head", "tail", "within", "one", "repeat", "each", "shuffled", "both">>
Plan(shape, T) ==
    LET z == TLCEval(Pick(1..8)) k == TLCEval(Pick(2..3)) c == TLCEval(Pick(1..(T - 1))) IN
    CASE shape = "head" -> Zeros(z) \o Identity(T)
      [] shape = "tail" -> Identity(T) \o Zeros(z)
      [] shape = "within" -> SubSeq(Identity(T), 1, c) \o Zeros(z) \o SubSeq(Identity(T), c + 1, T)
      [] shape = "one" -> Shuffle(TLCEval(Identity(T) \o Zeros(1)))
      [] shape = "repeat" -> Bag(T, k)
      [] shape = "each" -> Each(T, k)
      [] shape = "shuffled" -> Shuffle(TLCEval(Bag(T, k)))
      [] shape = "both" -> Shuffle(TLCEval(Bag(T, k) \o Zeros(z)))
Case(i) == LET shape == Shapes[((i - 1) % Len(Shapes)) + 1] T == TLCEval(Pick({14, 17, 20})) IN
           [id |-> i, shape |-> shape, t |-> T, plan |-> Plan(shape, T), ch |-> Pick({2, 3})]
GInit == out = 1 /\ orig = 0 /\ plan = 0 /\ at = 0 /\ acc = 0 /\ pen = 0 /\ broken = 0
GNext == out <= Rounds /\ out' = out + 1 /\ UNCHANGED fvars
         /\ LET c == TLCEval(Case(out)) IN Assert(Uniform(c.plan, c.t), "plan") /\ PrintT("@@CASE " \o ToJson(c))
GSpec == GInit /\ [][GNext]_<<fvars, out>>
================================================================================
