------------------------------- MODULE Symmetry -------------------------------
(* The group of transformations of a mixture that a separation method carries  *)
(* over to its result: reordering of frames and bins, unit phases common to all *)
(* channels, conjugation, mixing of the sensors, relabelling of the sources.    *)
(* An element is a record; fb/ft give, for every output bin/frame, where it     *)
(* comes from; ph counts twelfths of a turn; A/den is the sensor matrix; all    *)
(* three are indexed by the bin and frame of the input.                         *)
EXTENDS CInt
VARIABLES x0, x, W0, W, g, steps
vars == <<x0, x, W0, W, g, steps>>
Turn == 12
Quarter(k) == CASE k % 12 = 0 -> <<1, 0>> [] k % 12 = 3 -> <<0, 1>> [] k % 12 = 6 -> <<-1, 0>> [] k % 12 = 9 -> <<0, -1>>
CConj(c, v) == IF c = 1 THEN Conj(v) ELSE v
MConj(c, M) == IF c = 1 THEN TLCEval([i \in 1..Len(M) |-> [j \in 1..Len(M[1]) |-> Conj(M[i][j])]]) ELSE M
Where(f, v) == CHOOSE i \in 1..Len(f) : f[i] = v
Id(C, nb, t) == [fb |-> [b \in 1..nb |-> b], ft |-> [j \in 1..t |-> j], ph |-> [b \in 1..nb |-> [j \in 1..t |-> 0]],
                 A |-> [b \in 1..nb |-> Eye(C)], den |-> [b \in 1..nb |-> 1], cj |-> 0, src |-> [c \in 1..C |-> c]]
(* h after f *)
Compose(h, f) ==
    [fb |-> TLCEval([b \in 1..Len(f.fb) |-> f.fb[h.fb[b]]]),
     ft |-> TLCEval([j \in 1..Len(f.ft) |-> f.ft[h.ft[j]]]),
     ph |-> TLCEval([b \in 1..Len(f.fb) |-> [j \in 1..Len(f.ft) |->
                LET hp == h.ph[Where(f.fb, b)][Where(f.ft, j)] IN (f.ph[b][j] + (IF f.cj = 1 THEN Turn - hp ELSE hp)) % Turn]]),
     A |-> TLCEval([b \in 1..Len(f.fb) |-> MMul(MConj(f.cj, h.A[Where(f.fb, b)]), f.A[b])]),
     den |-> TLCEval([b \in 1..Len(f.fb) |-> h.den[Where(f.fb, b)] * f.den[b]]),
     cj |-> (f.cj + h.cj) % 2,
     src |-> TLCEval([c \in 1..Len(f.src) |-> f.src[h.src[c]]])]
ActX(e, z) == TLCEval([c \in 1..Len(z) |-> [b \in 1..Len(e.fb) |-> [j \in 1..Len(e.ft) |->
    LET b0 == e.fb[b]  j0 == e.ft[j] IN
    CConj(e.cj, CMul(Quarter(e.ph[b0][j0]), CDot(e.A[b0][c], [d \in 1..Len(z) |-> z[d][b0][j0]])))]]])
ActY(e, z) == TLCEval([c \in 1..Len(z) |-> [b \in 1..Len(e.fb) |-> [j \in 1..Len(e.ft) |->
    LET b0 == e.fb[b]  j0 == e.ft[j] IN CConj(e.cj, CMul(Quarter(e.ph[b0][j0]), z[e.src[c]][b0][j0]))]]])
ActW(e, V) == TLCEval([b \in 1..Len(e.fb) |->
    Bind(MMul(V[e.fb[b]], Inv(e.A[e.fb[b]])), LAMBDA M : MConj(e.cj, [c \in 1..Len(M) |-> M[e.src[c]]]))])
Sep(V, z) == TLCEval([c \in 1..Len(V[1]) |-> [b \in 1..Len(V) |-> [j \in 1..Len(z[1][1]) |->
    CDot(V[b][c], [d \in 1..Len(z) |-> z[d][b][j]])]]])

(* ---- design: 2 channels, 2 bins, 2 frames, exact ------------------------- *)
CONSTANT Depth
Ids == Id(2, 2, 2)
Gens == {[Ids EXCEPT !.ft = <<2, 1>>], [Ids EXCEPT !.fb = <<2, 1>>], [Ids EXCEPT !.cj = 1], [Ids EXCEPT !.src = <<2, 1>>],
         [Ids EXCEPT !.ph = <<<<3, 0>>, <<6, 9>>>>],
         [Ids EXCEPT !.A = <<PermM(<<2, 1>>), Eye(2)>>], [Ids EXCEPT !.A = <<DiagM(<<<<0, 1>>, One>>), DiagM(<<<<0, -1>>, <<-1, 0>>>>)>>],
         [Ids EXCEPT !.A = <<<<<<One, <<1, 1>>>>, <<Zero, One>>>>, Eye(2)>>]}
Xs == {<<<<<<a, Zero>>, <<One, b>>>>, <<<<<<2, 1>>, One>>, <<<<0, -1>>, a>>>>>> : a \in {One, <<1, 2>>}, b \in {<<0, 1>>, <<-1, 3>>}}
Ws == {<<Eye(2), <<<<One, One>>, <<Zero, <<0, 1>>>>>>>>, <<<<<<Zero, One>>, <<One, <<1, 1>>>>>>, <<<<<<0, 1>>, Zero>>, <<<<2, 0>>, One>>>>>>}
SInit == /\ x0 \in Xs /\ x = x0 /\ W0 \in Ws /\ W = W0 /\ g = Ids /\ steps = 0
SNext == /\ steps < Depth /\ steps' = steps + 1 /\ UNCHANGED <<x0, W0>>
         /\ \E h \in Gens : x' = ActX(h, x) /\ W' = ActW(h, W) /\ g' = Compose(h, g)
SSpec == SInit /\ [][SNext]_vars
ComposedActs == x = ActX(g, x0) /\ W = ActW(g, W0)
OutputsCarryOver == Sep(W, x) = ActY(g, Sep(W0, x0))
Power(z) == CSum([c \in 1..Len(z) |-> CSum([b \in 1..Len(z[1]) |-> CSum([j \in 1..Len(z[1][1]) |-> <<Abs2(z[c][b][j]), 0>>])])])
PowerUnchanged == Power(Sep(W, x)) = Power(Sep(W0, x0))
DetUnchanged == LET a == CMul(Det(W[1]), Det(W[2]))  b == CMul(Det(W0[1]), Det(W0[2])) IN Abs2(a) = Abs2(b)

(* ---- which transformations each family of methods carries over ------------ *)
(* e.fam, e.rule (spatial rule), e.opt (set of options), e.gens (kinds used)   *)
UniSensor == {"perm", "unit", "rot", "sign"}
AllSensor == UniSensor \cup {"shear", "shearr", "scale"}
Kinds(e) ==
    LET opt == {e.opt[i] : i \in 1..Len(e.opt)} IN
    {"frames"}
    \cup (IF e.fam \in {"psdtf", "hva", "ica", "fastica"} \/ "aligned" \in opt THEN {} ELSE {"bins"})
    \cup (IF e.fam = "psdtf" THEN {"fphase", "conj"} ELSE IF e.fam \in {"ica", "fastica"} THEN {} ELSE {"fphase", "phase", "conj"})
    \cup (IF e.fam \in {"fastica", "fastiva"} \/ opt \cap {"restored", "aligned", "pbnorm"} # {} THEN {}
          ELSE IF e.fam \in {"prox", "hva"} \/ e.rule = "grad" \/ "sharednorm" \in opt THEN UniSensor
          ELSE AllSensor)
    \cup (IF e.rule \in {"grad", "natural"} \/ e.fam \in {"prox", "hva", "fastiva", "mnmf", "fastmnmf", "mixture"}
          THEN {"src"} ELSE {})
Carried(e) == {e.gens[i] : i \in 1..Len(e.gens)} \subseteq Kinds(e)
===============================================================================
