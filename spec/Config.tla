------------------------------- MODULE Config -------------------------------
(* The lattice of configurations: every class of the library with the options  *)
(* it documents, each option with all the ways of writing it.  Denote maps a    *)
(* configuration to the method it stands for; the transitions rewrite one       *)
(* configuration into an equivalent one, one documented equivalence at a time.  *)
(* Theorem (TLC): rewriting never changes what is denoted, except for the       *)
(* weak equivalences that have been used, which Denote forgets.                 *)
EXTENDS Naturals, Sequences, FiniteSets, TLC
CONSTANTS Depth
VARIABLES c, c0, used, depth
vars == <<c, c0, used, depth>>

None == "omitted"
(* Eager binding: the argument is evaluated once.                              *)
Bind(v, F(_)) == CHOOSE r \in {F(w) : w \in {v}} : TRUE

(* ---------------------------------------------------------------- classes *)
Laplace == {"GradLaplaceICA", "NaturalGradLaplaceICA", "GradLaplaceFDICA", "NaturalGradLaplaceFDICA", "AuxLaplaceFDICA",
            "GradLaplaceIVA", "NaturalGradLaplaceIVA", "AuxLaplaceIVA"}
GaussV == {"GradGaussIVA", "NaturalGradGaussIVA", "AuxGaussIVA"}
ICAs == {"GradICA", "NaturalGradICA", "GradLaplaceICA", "NaturalGradLaplaceICA"}
GradF == {"GradFDICA", "NaturalGradFDICA", "GradLaplaceFDICA", "NaturalGradLaplaceFDICA"}
AuxF == {"AuxFDICA", "AuxLaplaceFDICA"}
GradV == {"GradIVA", "NaturalGradIVA", "GradLaplaceIVA", "NaturalGradLaplaceIVA", "GradGaussIVA", "NaturalGradGaussIVA"}
FastV == {"FastIVA", "FasterIVA"}
AuxV == {"AuxIVA", "AuxLaplaceIVA", "AuxGaussIVA"}
ILRMAs == {"GaussILRMA", "TILRMA", "GGDILRMA"}
IPSDTAs == {"GaussIPSDTA", "TIPSDTA"}
MNMFs == {"GaussMNMF", "FastGaussMNMF"}
HVAs == {"HVA", "MaskingPDSHVA", "MaskingADMMHVA"}
Maskers == {"MaskingPDSBSS", "MaskingADMMBSS"}
Proxes == {"PDSBSS", "ADMMBSS", "PDSIVA", "ADMMIVA"}
ADMMs == {"ADMMBSS", "ADMMIVA", "MaskingADMMBSS", "MaskingADMMHVA"}
Splitting == HVAs \cup Maskers \cup Proxes
Generic == {"GradICA", "NaturalGradICA", "GradFDICA", "NaturalGradFDICA", "AuxFDICA", "GradIVA", "NaturalGradIVA", "AuxIVA"}
Classes == ICAs \cup {"FastICA"} \cup GradF \cup AuxF \cup GradV \cup FastV \cup AuxV \cup ILRMAs \cup IPSDTAs \cup MNMFs
           \cup {"CACGMM"} \cup Splitting

(* ---------------------------------------------- options and their spellings *)
SlotsOf(k) ==
    {"cb", "rec", "init"}
    \cup (IF k \in ICAs \cup GradF \cup GradV THEN {"step", "hol"} ELSE {})
    \cup (IF k \in Generic THEN {"model"} ELSE {})
    \cup (IF k \in GradF \cup AuxF \cup GradV \cup FastV \cup AuxV \cup ILRMAs \cup IPSDTAs \cup MNMFs \cup {"CACGMM"} \cup HVAs THEN {"floor"} ELSE {})
    \cup (IF k \in AuxF \cup AuxV \cup ILRMAs \cup IPSDTAs \cup {"FastGaussMNMF"} THEN {"sp"} ELSE {})
    \cup (IF k \in AuxF \cup AuxV \cup ILRMAs \cup {"FastGaussMNMF"} THEN {"pair"} ELSE {})
    \cup (IF k \in AuxV \cup {"GaussILRMA"} THEN {"newton", "lqpqm"} ELSE {})
    \cup (IF k = "CACGMM" THEN {"giter", "liter"} ELSE {})
    \cup (IF k \in GradF \cup AuxF \cup {"CACGMM"} THEN {"perm"} ELSE {})
    \cup (IF k \in GradF \cup AuxF \cup GradV \cup FastV \cup AuxV \cup ILRMAs \cup IPSDTAs \cup Splitting THEN {"scale"} ELSE {})
    \cup (IF k \in GradF \cup AuxF \cup GradV \cup FastV \cup AuxV \cup ILRMAs \cup IPSDTAs \cup Splitting \cup MNMFs \cup {"CACGMM"} THEN {"ref"} ELSE {})
    \cup (IF k \in ILRMAs \cup IPSDTAs THEN {"src"} ELSE {})
    \cup (IF k \in ILRMAs THEN {"dom"} ELSE {})
    \cup (IF k \in ILRMAs \cup {"GaussMNMF"} THEN {"part"} ELSE {})
    \cup (IF k \in ILRMAs \cup IPSDTAs \cup MNMFs \cup {"CACGMM"} THEN {"norm"} ELSE {})
    \cup (IF k \in MNMFs \cup {"CACGMM"} THEN {"nsrc"} ELSE {})
    \cup (IF k \in {"TILRMA", "TIPSDTA"} THEN {"dof"} ELSE {})
    \cup (IF k = "GGDILRMA" THEN {"beta"} ELSE {})
    \cup (IF k \in Splitting THEN {"relax"} ELSE {})
    \cup (IF k \in Splitting \ ADMMs THEN {"mu1", "mu2"} ELSE {})
    \cup (IF k \in ADMMs THEN {"rho", "aux"} ELSE {})
    \cup (IF k \in HVAs THEN {"att", "miter"} ELSE {})
    \cup (IF k \in Maskers THEN {"mask"} ELSE {})
    \cup (IF k \in {"PDSBSS", "ADMMBSS", "PDSIVA", "ADMMIVA"} THEN {"pen"} ELSE {})
    \cup (IF k \in AuxF \cup FastV \cup AuxV \cup ILRMAs \cup IPSDTAs \cup MNMFs \cup {"CACGMM"} THEN {"drive"} ELSE {})

SlotTable == TLCEval([k \in Classes |-> SlotsOf(k)])
Slots(k) == SlotTable[k]

Spellings(k, s) ==
    CASE s = "cb" -> {None, "None", "one", "list"}
      [] s = "rec" -> IF k \in Maskers \cup HVAs THEN {None, "None"} ELSE {None, "True"}
      [] s = "init" -> {None, "True"}
      [] s = "step" -> {None, "0.1"}
      [] s = "hol" -> {None, "True", "False"}
      [] s = "model" -> IF k \in {"GradIVA", "NaturalGradIVA", "AuxIVA"} THEN {"laplace", "smooth", "gauss"} ELSE {"laplace", "smooth"}
      [] s = "floor" -> {None, "spelled", "lambda", "old", "None", "identity", "oldidentity", "add0", "add", "oldadd"}
      [] s = "sp" -> CASE k \in AuxF \cup {"FastGaussMNMF"} -> {None, "IP", "IP1", "IP2"}
                       [] k \in AuxV \cup {"GaussILRMA"} -> {None, "IP", "IP1", "IP2", "ISS", "ISS1", "ISS2", "IPA"}
                       [] k \in {"TILRMA", "GGDILRMA"} -> {None, "IP", "IP1", "IP2", "ISS", "ISS1", "ISS2"}
                       [] OTHER -> {None, "VCD"}
      [] s = "pair" -> {None, "None", "seq", "oldseq", "comb", "oldcomb"}
      [] s \in {"newton", "giter", "liter"} -> {None, "1", "2"}
      [] s = "lqpqm" -> {None, "True", "False"}
      [] s = "perm" -> IF k = "CACGMM" THEN {None, "True", "posterior_score", "amplitude_score", "amplitude_correlation", "False"}
                       ELSE {None, "True", "spectrogram_correlation", "False"}
      [] s = "scale" -> IF k \in IPSDTAs THEN {None, "True", "projection_back", "False"}
                        ELSE {None, "True", "projection_back", "minimal_distortion_principle", "False"}
      [] s = "ref" -> {None, "0", "1"}
      [] s = "src" -> IF k \in {"GGDILRMA"} \cup IPSDTAs THEN {None, "MM"} ELSE {None, "MM", "ME"}
      [] s = "dom" -> {None, "2", "1"}
      [] s = "part" -> {None, "False", "True"}
      [] s = "norm" -> CASE k \in ILRMAs -> {None, "True", "power", "projection_back", "False"}
                         [] k = "FastGaussMNMF" -> {None, "True", "power", "False"}
                         [] OTHER -> {None, "True", "False"}
      [] s = "nsrc" -> {None, "None", "C"}
      [] s = "dof" -> {"5", "huge"}
      [] s = "beta" -> {"near2", "1.5"}
      [] s = "relax" -> {None, "relaxation=1", "alpha=1", "relaxation=0.8", "alpha=0.8"}
      [] s \in {"mu1", "mu2", "rho"} -> {None, "1", "0.7"}
      [] s = "aux" -> {"auxiliary1", "aux1"}
      [] s = "att" -> {None, "None", "1/C", "0.8"}
      [] s = "miter" -> {None, "1", "2"}
      [] s = "mask" -> {"lap", "hva"}
      [] s = "pen" -> IF k \in {"PDSIVA", "ADMMIVA"} THEN {None, "l21"} ELSE {"l21", "[l21]", "lap", "hva"}
      [] s = "drive" -> {"call", "hand", "hand-self", "hand-fn", "hand-none"}

(* What a spelling means.  These are the documented defaults and synonyms.     *)
Meaning(k, s, v) ==
    CASE s = "cb" -> IF v \in {"one", "list"} THEN "one" ELSE "none"
      [] s = "rec" -> "default"
      [] s = "init" -> "True"
      [] s = "step" -> "0.1"
      [] s = "hol" -> IF v = None THEN (IF k \in GradV THEN "True" ELSE "False") ELSE v
      [] s = "model" -> v
      [] s = "floor" -> CASE v \in {None, "spelled", "lambda", "old"} -> "max" [] v \in {"add", "oldadd"} -> "add" [] OTHER -> "identity"
      [] s = "sp" -> CASE k \in IPSDTAs -> "VCD" [] v \in {None, "IP", "IP1"} -> "IP1" [] v \in {"ISS", "ISS1"} -> "ISS1" [] OTHER -> v
      [] s = "pair" -> IF v \in {"comb", "oldcomb"} THEN "comb" ELSE "seq"
      [] s \in {"newton", "giter", "liter"} -> IF v = None THEN "1" ELSE v
      [] s = "lqpqm" -> IF v = None THEN "True" ELSE v
      [] s = "perm" -> IF v \in {None, "True"} THEN (IF k = "CACGMM" THEN "posterior_score" ELSE "spectrogram_correlation") ELSE v
      [] s = "scale" -> IF v \in {None, "True"} THEN "projection_back" ELSE v
      [] s = "ref" -> IF v = None THEN "0" ELSE v
      [] s = "src" -> IF v = None THEN "MM" ELSE v
      [] s = "dom" -> IF v = None THEN "2" ELSE v
      [] s = "part" -> IF v = None THEN "False" ELSE v
      [] s = "norm" -> IF v \in {None, "True"} THEN "power" ELSE v
      [] s = "nsrc" -> "C"
      [] s = "dof" -> v
      [] s = "beta" -> v
      [] s = "relax" -> IF v \in {"relaxation=0.8", "alpha=0.8"} THEN "0.8" ELSE "1"
      [] s \in {"mu1", "mu2", "rho"} -> IF v = None THEN "1" ELSE v
      [] s = "aux" -> "auxiliary1"
      [] s = "att" -> IF v \in {None, "None"} THEN "1/C" ELSE v
      [] s = "miter" -> IF v = None THEN "1" ELSE v
      [] s = "mask" -> v
      [] s = "pen" -> IF v \in {None, "[l21]"} THEN "l21" ELSE v
      [] s = "drive" -> IF v = "call" THEN "call" ELSE "hand"
M(x, s) == Meaning(x.cls, s, x.o[s])
Has(x, s) == s \in Slots(x.cls)
Is(x, s, m) == Has(x, s) /\ M(x, s) = m

(* ------------------------------------------------------- meaningful configurations *)
Valid(x) ==
    /\ DOMAIN x.o = Slots(x.cls)
    /\ \A s \in Slots(x.cls) : x.o[s] \in Spellings(x.cls, s)
    /\ (Is(x, "src", "ME") => Is(x, "dom", "2"))
    (* options of one update rule are refused with another *)
    /\ (Has(x, "newton") /\ ~Is(x, "sp", "IPA") => x.o["newton"] = None /\ x.o["lqpqm"] = None)
    /\ (Has(x, "giter") /\ M(x, "perm") \notin {"posterior_score", "amplitude_score"} => x.o["giter"] = None /\ x.o["liter"] = None)
    /\ (Is(x, "norm", "projection_back") => Is(x, "part", "False"))
    /\ (Is(x, "drive", "hand") => (~Has(x, "scale") \/ Is(x, "scale", "False")) /\ (~Has(x, "perm") \/ Is(x, "perm", "False")))
    /\ (Has(x, "drive") /\ x.o["drive"] = "hand-none" => Is(x, "floor", "identity"))
    /\ (x.cls = "AuxGaussIVA" \/ Is(x, "model", "gauss") => TRUE)

(* ---------------------------------------------------------------- denotation *)
Kind(k) == CASE k \in {"GradICA", "GradLaplaceICA"} -> "GradICA"
             [] k \in {"NaturalGradICA", "NaturalGradLaplaceICA"} -> "NaturalGradICA"
             [] k \in {"GradFDICA", "GradLaplaceFDICA"} -> "GradFDICA"
             [] k \in {"NaturalGradFDICA", "NaturalGradLaplaceFDICA"} -> "NaturalGradFDICA"
             [] k \in AuxF -> "AuxFDICA"
             [] k \in {"GradIVA", "GradLaplaceIVA", "GradGaussIVA"} -> "GradIVA"
             [] k \in {"NaturalGradIVA", "NaturalGradLaplaceIVA", "NaturalGradGaussIVA"} -> "NaturalGradIVA"
             [] k \in AuxV -> "AuxIVA"
             [] k \in ILRMAs -> "ILRMA"
             [] k \in IPSDTAs -> "IPSDTA"
             [] k \in ADMMs -> "ADMM"
             [] k \in Splitting -> "PDS"
             [] OTHER -> k
(* the source model, or the penalty of a splitting method *)
Model(x, weak) ==
    CASE x.cls \in Laplace -> "laplace"
      [] x.cls \in GaussV -> "gauss"
      [] x.cls \in Generic -> IF M(x, "model") = "gauss" /\ "profile" \notin weak THEN "gaussprofile" ELSE M(x, "model")
      [] x.cls \in {"GaussILRMA", "GaussIPSDTA"} -> "gauss"
      [] x.cls = "GGDILRMA" -> IF M(x, "beta") = "near2" THEN (IF "limit" \in weak THEN "gauss" ELSE "ggdnear2") ELSE "ggd1.5"
      [] x.cls \in {"TILRMA", "TIPSDTA"} -> IF M(x, "dof") = "huge" THEN (IF "limit" \in weak THEN "gauss" ELSE "thuge") ELSE "t5"
      [] x.cls \in HVAs -> "hva" \o M(x, "att") \o "/" \o M(x, "miter")
      [] x.cls \in Maskers -> IF M(x, "mask") = "hva" THEN "hva1/C/1" ELSE M(x, "mask")
      [] x.cls \in Proxes -> IF M(x, "pen") = "hva" THEN "hva1/C/1" ELSE M(x, "pen")
      [] OTHER -> "-"
Common == {"cb", "init", "hol", "step", "floor", "sp", "pair", "perm", "scale", "ref", "src", "dom", "part", "norm", "nsrc",
           "newton", "lqpqm", "giter", "liter", "relax", "mu1", "mu2", "rho", "aux", "drive"}
Pairwise(x) == Has(x, "sp") /\ M(x, "sp") \in {"IP2", "ISS2"}
Forget(x, s, weak) ==
    CASE s = "pair" -> ~Pairwise(x)
      [] s = "norm" -> "norm" \in weak
      [] s = "floor" -> x.cls \in HVAs /\ M(x, "floor") = "max"
      [] s \in {"att", "miter"} -> TRUE
      [] s \in {"newton", "lqpqm"} -> M(x, "sp") # "IPA"
      [] s \in {"giter", "liter"} -> M(x, "perm") \notin {"posterior_score", "amplitude_score"}
      [] OTHER -> FALSE
Sp(x, s, weak) == IF s = "sp" /\ "phase" \in weak /\ M(x, s) = "ISS2" THEN "IP2" ELSE M(x, s)
Denote(x, weak) ==
    [kind |-> Kind(x.cls), n |-> x.n, model |-> Model(x, weak),
     opts |-> {<<s, Sp(x, s, weak)>> : s \in {s \in Slots(x.cls) \cap Common : ~Forget(x, s, weak)}}]

(* ------------------------------------------------------------------ rewriting *)
Respell(x) == UNION {{[x |-> [x EXCEPT !.o[s] = v], w |-> ""] : v \in {v \in Spellings(x.cls, s) :
                       v # x.o[s] /\ Meaning(x.cls, s, v) = M(x, s)}} : s \in Slots(x.cls)}
(* a pair selector is irrelevant to updates that are not pairwise *)
Irrelevant(x) == IF Has(x, "pair") /\ ~Pairwise(x)
                 THEN {[x |-> [x EXCEPT !.o["pair"] = v], w |-> ""] : v \in Spellings(x.cls, "pair") \ {x.o["pair"]}} ELSE {}
(* special class, generic class, option of the generic class, its value, weak equivalence *)
Casts == {<<"GradLaplaceICA", "GradICA", "model", "laplace", "">>, <<"NaturalGradLaplaceICA", "NaturalGradICA", "model", "laplace", "">>,
          <<"GradLaplaceFDICA", "GradFDICA", "model", "laplace", "">>, <<"NaturalGradLaplaceFDICA", "NaturalGradFDICA", "model", "laplace", "">>,
          <<"AuxLaplaceFDICA", "AuxFDICA", "model", "laplace", "">>,
          <<"GradLaplaceIVA", "GradIVA", "model", "laplace", "">>, <<"NaturalGradLaplaceIVA", "NaturalGradIVA", "model", "laplace", "">>,
          <<"AuxLaplaceIVA", "AuxIVA", "model", "laplace", "">>,
          <<"GradGaussIVA", "GradIVA", "model", "gauss", "profile">>, <<"NaturalGradGaussIVA", "NaturalGradIVA", "model", "gauss", "profile">>,
          <<"AuxGaussIVA", "AuxIVA", "model", "gauss", "profile">>,
          <<"GaussILRMA", "GGDILRMA", "beta", "near2", "limit">>, <<"GaussILRMA", "TILRMA", "dof", "huge", "limit">>,
          <<"GaussIPSDTA", "TIPSDTA", "dof", "huge", "limit">>,
          <<"PDSIVA", "PDSBSS", "pen", "l21", "">>, <<"ADMMIVA", "ADMMBSS", "pen", "l21", "">>,
          <<"HVA", "MaskingPDSHVA", "-", "-", "">>,
          <<"MaskingPDSHVA", "MaskingPDSBSS", "mask", "hva", "">>, <<"MaskingADMMHVA", "MaskingADMMBSS", "mask", "hva", "">>,
          <<"MaskingPDSBSS", "PDSBSS", "pen", "lap", "">>, <<"MaskingADMMBSS", "ADMMBSS", "pen", "lap", "">>,
          <<"MaskingPDSBSS", "PDSBSS", "pen", "hva", "">>, <<"MaskingADMMBSS", "ADMMBSS", "pen", "hva", "">>}
First(k, s) == IF None \in Spellings(k, s) THEN None
               ELSE CASE s = "aux" -> "auxiliary1" [] s = "drive" -> "call" [] OTHER -> "-"
Carry(x, k) == [cls |-> k, n |-> x.n, o |-> TLCEval([s \in Slots(k) |->
                  IF s \in Slots(x.cls) /\ x.o[s] \in Spellings(k, s) THEN x.o[s] ELSE First(k, s)])]
With(x, s, v) == IF s = "-" THEN x ELSE [x EXCEPT !.o[s] = v]
(* what is not carried over must have had its default meaning *)
Droppable(x, k) == \A s \in Slots(x.cls) \ Slots(k) :
    \/ s \in {"mask", "model", "pen", "dof", "beta"}
    \/ s \in {"newton", "lqpqm"} /\ ~Is(x, "sp", "IPA")
    \/ s = "floor" /\ M(x, s) = "max"
    \/ s = "att" /\ M(x, s) = "1/C"
    \/ s = "miter" /\ M(x, s) = "1"
Carried(x, k) == \A s \in (Slots(x.cls) \cap Slots(k)) \ {"pen", "mask", "rec"} : x.o[s] \in Spellings(k, s)
Shared(x, y) == \A s \in (Slots(x.cls) \cap Slots(y.cls)) \ {"pen", "mask"} : M(x, s) = M(y, s)
MaskMatches(x, t) == IF x.cls \in Maskers THEN t[4] = x.o["mask"] ELSE TRUE
(* the variance of the Gaussian model is refreshed once per iteration, generic weights once per pair *)
Timed(x, t) == t[5] = "profile" => (Is(x, "sp", "IP2") => x.n = 2 /\ Is(x, "pair", "comb"))
Generalise(x) == {[x |-> With(Carry(x, t[2]), t[3], t[4]), w |-> t[5]] : t \in {t \in Casts :
                     t[1] = x.cls /\ Timed(x, t) /\ Droppable(x, t[2]) /\ Carried(x, t[2]) /\ MaskMatches(x, t)}}
Masked(y, t) == IF y.cls \in Maskers THEN With(y, "mask", t[4]) ELSE y
Specialise(x) == {[x |-> Masked(Carry(x, t[1]), t), w |-> t[5]] : t \in {t \in Casts :
                     t[2] = x.cls /\ Timed(x, t) /\ (t[3] = "-" \/ M(x, t[3]) = t[4]) /\ Carried(x, t[1])}}
Restored(x) == (Has(x, "scale") => M(x, "scale") # "False") /\ ~Is(x, "drive", "hand")
Renormalise(x) == IF Has(x, "norm") /\ Restored(x) /\ ~Is(x, "floor", "add")
                     /\ ~Is(x, "part", "True")     (* shared bases: weights are renormalised on their own *)
                  THEN {[x |-> [x EXCEPT !.o["norm"] = v], w |-> "norm"] : v \in {v \in Spellings(x.cls, "norm") : Meaning(x.cls, "norm", v) # M(x, "norm")}}
                  ELSE {}
(* with two sources pairwise projection and pairwise steering solve the same problem; the weights of   *)
(* the IVA methods are refreshed for every pair by one and once by the other, so there must be one pair *)
OnePair(x) == x.n = 2 /\ Is(x, "pair", "comb")
Rebook(x) == IF Pairwise(x) /\ x.n = 2 /\ (Kind(x.cls) = "ILRMA" \/ (Kind(x.cls) = "AuxIVA" /\ OnePair(x))) /\ Restored(x)
             THEN {[x |-> [x EXCEPT !.o["sp"] = IF M(x, "sp") = "IP2" THEN "ISS2" ELSE "IP2"], w |-> "phase"]} ELSE {}
Rewrites(x) == {r \in Respell(x) \cup Irrelevant(x) \cup Generalise(x) \cup Specialise(x) \cup Renormalise(x) \cup Rebook(x) : Valid(r.x)}

(* ------------------------------------------------------------------ behaviours *)
Base(k, n) == [cls |-> k, n |-> n, o |-> TLCEval([s \in Slots(k) |-> IF None \in Spellings(k, s) THEN None ELSE
                  CASE s = "aux" -> "auxiliary1" [] s = "drive" -> "call" [] OTHER -> CHOOSE v \in Spellings(k, s) : TRUE])]
Deviations(x) == {y \in UNION {{[x EXCEPT !.o[s] = v] : v \in Spellings(x.cls, s)} : s \in Slots(x.cls)} : Valid(y)}
Start == UNION {Bind(Base(k, n), LAMBDA x : Deviations(x)) : k \in Classes, n \in {2, 3}}
Init == /\ c0 \in Start
        /\ c = c0 /\ used = {} /\ depth = 0
Next == /\ depth < Depth
        /\ \E r \in Rewrites(c) : c' = r.x /\ used' = used \cup (IF r.w = "" THEN {} ELSE {r.w})
        /\ depth' = depth + 1 /\ UNCHANGED c0
Spec == Init /\ [][Next]_vars
WellFormed == Valid(c)
SameMethod == Denote(c, used) = Denote(c0, used)
(* every rewriting can be undone *)
Reversible == depth = 1 => \E b \in Rewrites(c) : b.x = c0 \/ Denote(b.x, {}) = Denote(c0, {})
=============================================================================
