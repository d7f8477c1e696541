------------------------------ MODULE Admissible -------------------------------
(* Which requests the library accepts.  A request is a class with a value for   *)
(* every option it has; rules say what is supported, alone and in combination.   *)
(* A method looks at its options at three gates: when it is built, when it       *)
(* updates, and when it finishes (scaling and alignment).  Theorem: a call that   *)
(* updates at least once returns a result exactly for the supported requests.    *)
EXTENDS Naturals, Sequences, FiniteSets, TLC
CONSTANTS Wide                      \* BOOLEAN: two options away from the ordinary ones
VARIABLES cls, req, iters, gate, status
avars == <<cls, req, iters, gate, status>>

GenericI == {"GradICA", "NaturalGradICA"}
GenericF == {"GradFDICA", "NaturalGradFDICA"}
LaplaceF == {"GradLaplaceFDICA", "NaturalGradLaplaceFDICA"}
AuxF == {"AuxFDICA", "AuxLaplaceFDICA"}
GenericV == {"GradIVA", "NaturalGradIVA"}
ModelV == {"GradLaplaceIVA", "NaturalGradLaplaceIVA", "GradGaussIVA", "NaturalGradGaussIVA"}
FastV == {"FastIVA", "FasterIVA"}
AuxV == {"AuxIVA", "AuxLaplaceIVA", "AuxGaussIVA"}
ILRMAs == {"GaussILRMA", "TILRMA", "GGDILRMA"}
IPSDTAs == {"GaussIPSDTA", "TIPSDTA"}
ProxV == {"PDSIVA", "ADMMIVA"}
Prox == {"PDSBSS", "ADMMBSS"}
Maskers == {"MaskingPDSBSS", "MaskingADMMBSS"}
HVAs == {"HVA", "MaskingPDSHVA", "MaskingADMMHVA"}
Splitting == ProxV \cup Prox \cup Maskers \cup HVAs
FD == GenericF \cup LaplaceF \cup AuxF
IVAs == GenericV \cup ModelV \cup FastV \cup AuxV
Scaled == FD \cup IVAs \cup ILRMAs \cup IPSDTAs \cup Splitting
Classes == GenericI \cup {"FastICA"} \cup Scaled \cup {"GaussMNMF", "FastGaussMNMF", "CACGMM"}

(* ------------------------------------------------------- options and values *)
SpAll == {"IP", "IP1", "IP2", "ISS", "ISS1", "ISS2", "IPA", "VCD", "FPI", "ISS3", "other"}
ScaleOK == {"True", "projection_back", "projection-back", "PB", "minimal_distortion_principle",
            "minimal-distortion-principle", "MDP"}
ScaleAll == ScaleOK \cup {"False", "other"}
PermAll == {"True", "False", "spectrogram_correlation", "posterior_score", "amplitude_score", "amplitude_correlation", "other"}
FnOf(k) == CASE k \in GenericI \cup GenericF \cup GenericV -> {"contrast_fn", "score_fn"}
             [] k = "FastICA" -> {"contrast_fn", "score_fn", "d_score_fn"}
             [] k \in {"AuxFDICA", "FasterIVA", "AuxIVA"} -> {"contrast_fn", "d_contrast_fn"}
             [] k = "FastIVA" -> {"contrast_fn", "d_contrast_fn", "dd_contrast_fn"}
             [] k \in ProxV -> {"contrast_fn", "prox_penalty"}
             [] k \in Prox -> {"prox_penalty"}
             [] k \in Maskers -> {"mask_fn"}
             [] OTHER -> {}
Slots(k) == (IF k \in FD \cup IVAs \cup ILRMAs \cup IPSDTAs \cup {"GaussMNMF", "FastGaussMNMF", "CACGMM"} \cup HVAs THEN {"floor"} ELSE {})
    \cup (IF FnOf(k) # {} THEN {"fn"} ELSE {})
    \cup (IF k \in AuxF \cup AuxV \cup ILRMAs \cup IPSDTAs \cup {"FastGaussMNMF"} THEN {"sp"} ELSE {})
    \cup (IF k \in ILRMAs \cup IPSDTAs THEN {"src"} ELSE {})
    \cup (IF k \in ILRMAs THEN {"dom"} ELSE {})
    \cup (IF k = "GGDILRMA" THEN {"beta"} ELSE {})
    \cup (IF k \in ILRMAs \cup {"GaussMNMF", "FastGaussMNMF"} THEN {"part"} ELSE {})
    \cup (IF k \in ILRMAs \cup {"FastGaussMNMF"} THEN {"norm"} ELSE {})
    \cup (IF k \in FD \cup {"CACGMM"} THEN {"perm"} ELSE {})
    \cup (IF k \in Scaled THEN {"scale", "ref"} ELSE {})
    \cup (IF k \in AuxV \cup {"GaussILRMA", "CACGMM"} THEN {"kw"} ELSE {})
    \cup (IF k \in Prox \cup Maskers THEN {"pen", "rec"} ELSE {})
    \cup (IF k \in Splitting THEN {"relax"} ELSE {})
Values(k, s) ==
    CASE s = "sp" -> SpAll
      [] s = "src" -> {"MM", "ME", "EM", "other"}
      [] s = "dom" -> {"2", "1", "0.5", "0", "-1", "2.5", "3"}
      [] s = "beta" -> {"1.5", "0.5", "1", "0", "2", "2.5", "-1"}
      [] s = "part" -> {"False", "True"}
      [] s = "norm" -> {"True", "False", "power", "projection_back", "other"}
      [] s = "perm" -> PermAll
      [] s = "scale" -> ScaleAll
      [] s = "ref" -> {"0", "1", "None", "beyond"}
      [] s = "kw" -> {"none", "newton_iter", "lqpqm_normalization", "global_iter", "local_iter", "unknown"}
      [] s = "pen" -> {"one", "list", "longer", "None", "notafunction"}
      [] s = "rec" -> {"True", "False"}
      [] s = "relax" -> {"default", "relaxation", "alpha", "both"}
      [] s = "floor" -> {"default", "None", "lambda", "notafunction"}
      [] OTHER -> {"all"} \cup FnOf(k)          \* fn: the function left out
Base(k, s) ==
    CASE s = "sp" -> IF k \in IPSDTAs THEN "VCD" ELSE "IP"
      [] s = "src" -> "MM" [] s = "dom" -> "2" [] s = "beta" -> "1.5" [] s = "part" -> "False" [] s = "norm" -> "True"
      [] s = "perm" -> "True" [] s = "scale" -> "True" [] s = "ref" -> "0" [] s = "kw" -> "none" [] s = "pen" -> "one"
      [] s = "rec" -> IF k \in Maskers THEN "False" ELSE "True"
      [] s \in {"relax", "floor"} -> "default" [] OTHER -> "all"
BaseReq(k) == [s \in Slots(k) |-> Base(k, s)]

(* -------------------------------------------------------------------- rules *)
Has(k, s) == s \in Slots(k)
SpOK(k) == CASE k \in AuxF \cup {"FastGaussMNMF"} -> {"IP", "IP1", "IP2"}
             [] k \in AuxV \cup {"GaussILRMA"} -> {"IP", "IP1", "IP2", "ISS", "ISS1", "ISS2", "IPA"}
             [] k \in {"TILRMA", "GGDILRMA"} -> {"IP", "IP1", "IP2", "ISS", "ISS1", "ISS2"}
             [] OTHER -> {"VCD"}
SrcOK(k) == IF k \in {"GaussILRMA", "TILRMA"} THEN {"MM", "ME"} ELSE {"MM"}
NormOK(k) == IF k \in ILRMAs THEN {"True", "False", "power", "projection_back"} ELSE {"True", "False", "power"}
PermOK(k) == IF k = "CACGMM" THEN {"True", "False", "posterior_score", "amplitude_score", "amplitude_correlation"}
             ELSE {"True", "False", "spectrogram_correlation"}
KwOK(k, r) == {"none"} \cup (IF k = "CACGMM" THEN (IF r["perm"] \in {"True", "posterior_score", "amplitude_score"} THEN {"global_iter", "local_iter"} ELSE {})
                             ELSE IF r["sp"] = "IPA" THEN {"newton_iter", "lqpqm_normalization"} ELSE {})
Scaling(k, r) == Has(k, "scale") /\ r["scale"] # "False"
(* methods whose updates divide; the others may never look at their flooring function *)
Floors(k) == Has(k, "floor") /\ k \notin GenericF \cup LaplaceF \cup GenericV \cup ModelV
(* the rules a request breaks, by the gate that looks at them *)
Broken(k, r, g) ==
    CASE g = "build" ->
           (IF Has(k, "sp") /\ k \notin IPSDTAs /\ r["sp"] \notin SpOK(k) THEN {"spatial-algorithm"} ELSE {})
           \cup (IF k \in ILRMAs /\ r["src"] \notin SrcOK(k) THEN {"source-algorithm"} ELSE {})
           \cup (IF Has(k, "dom") /\ r["dom"] \notin {"2", "1", "0.5"} THEN {"domain"} ELSE {})
           \cup (IF Has(k, "dom") /\ r["src"] = "ME" /\ r["dom"] # "2" THEN {"domain-of-ME"} ELSE {})
           \cup (IF Has(k, "beta") /\ r["beta"] \notin {"1.5", "0.5", "1"} THEN {"shape-parameter"} ELSE {})
           \cup (IF k = "FastGaussMNMF" /\ r["part"] = "True" THEN {"partitioning"} ELSE {})
           \cup (IF Has(k, "fn") /\ r["fn"] # "all" THEN {"missing-function"} ELSE {})
           \cup (IF Has(k, "ref") /\ r["ref"] = "None" /\ Scaling(k, r) THEN {"reference-needed"} ELSE {})
           \cup (IF Has(k, "kw") /\ r["kw"] \notin KwOK(k, r) THEN {"keyword"} ELSE {})
           \cup (IF Has(k, "pen") /\ (r["pen"] \in {"longer", "notafunction"} \/ (k \in Maskers /\ r["pen"] = "list"))
                    THEN {"penalty"} ELSE {})
           \cup (IF Has(k, "pen") /\ r["pen"] = "None" /\ r["rec"] = "True" THEN {"loss-without-penalty"} ELSE {})
           \cup (IF Has(k, "relax") /\ r["relax"] = "both" THEN {"relaxation-twice"} ELSE {})
      [] g = "update" ->
           (IF Floors(k) /\ r["floor"] = "notafunction" THEN {"flooring"} ELSE {})
           \cup (IF k \in IPSDTAs /\ r["sp"] \notin SpOK(k) THEN {"spatial-algorithm"} ELSE {})
           \cup (IF k \in IPSDTAs /\ r["src"] \notin SrcOK(k) THEN {"source-algorithm"} ELSE {})
           \cup (IF Has(k, "norm") /\ r["norm"] \notin NormOK(k) THEN {"normalization"} ELSE {})
           \cup (IF k \in ILRMAs /\ r["norm"] = "projection_back" /\ r["part"] = "True" THEN {"normalization-of-partitioned"} ELSE {})
      [] OTHER ->
           (IF Has(k, "scale") /\ r["scale"] = "other" THEN {"scale-restoration"} ELSE {})
           \cup (IF Has(k, "perm") /\ r["perm"] \notin PermOK(k) THEN {"permutation-alignment"} ELSE {})
           \cup (IF Has(k, "ref") /\ r["ref"] = "beyond" /\ Scaling(k, r) THEN {"no-such-reference"} ELSE {})
Gates == <<"build", "update", "finish">>
AllBroken(k, r) == UNION {Broken(k, r, Gates[i]) : i \in 1..3}
Supported(k, r) == AllBroken(k, r) = {}
(* without an update the second gate may be left unvisited, whatever it would say *)
Verdict(k, r, n) == IF Supported(k, r) THEN (IF Has(k, "floor") /\ ~Floors(k) /\ r["floor"] = "notafunction" THEN "free" ELSE "accept")
                    ELSE IF n = 0 /\ Broken(k, r, "build") \cup Broken(k, r, "finish") = {} THEN "free" ELSE "refuse"

(* -------------------------------------------- functions and their arguments *)
FnCases ==
    [fn : {"whiten", "pca"}, a : 1..5, b : {0, 1}]                       \* dimensions, complex
    \cup [fn : {"eigh", "eigh2", "gmeanmh"}, a : 0..4, b : {0}]            \* type of the problem
    \cup [fn : {"inv2", "eigh2-size"}, a : 1..3, b : 1..3]                 \* rows, columns
    \cup [fn : {"to_psd"}, a : 0..2, b : 0..2]                             \* the two axes of three
    \cup [fn : {"neg_log"}, a : 0..2, b : {0}]                             \* sign: negative, zero, positive
    \cup [fn : {"correlation", "score"}, a : 2..4, b : 0..3]               \* dimensions; companion: none, right, bins off, sources off
    \cup [fn : {"score-centroids"}, a : {0, 1}, b : {0}]                   \* several centroids
    \cup [fn : {"write-ext"}, a : 0..3, b : {0}]                           \* .wav, .mp3, .WAVE, none
    \cup [fn : {"write-shape"}, a : 1..3, b : 1..3]                        \* dimensions, channels
    \cup [fn : {"write-type"}, a : 0..6, b : {0}]                          \* f4 f8 i2 | c16 u2 b1 U1
    \cup [fn : {"lqpqm2"}, a : {0, 1, 2}, b : {0}]                         \* singular_fn: default, function, a number
FnSupported(c) ==
    CASE c.fn = "whiten" -> (c.a = 2 /\ c.b = 0) \/ c.a = 3 \/ (c.a = 4 /\ c.b = 1)
      [] c.fn = "pca" -> (c.a = 2 /\ c.b = 0) \/ c.a = 3 \/ (c.a = 4 /\ c.b = 1)
      [] c.fn \in {"eigh", "eigh2", "gmeanmh"} -> c.a \in 1..3
      [] c.fn \in {"inv2", "eigh2-size"} -> c.a = 2 /\ c.b = 2
      [] c.fn = "to_psd" -> c.a = 1 /\ c.b = 2
      [] c.fn = "neg_log" -> c.a # 0
      [] c.fn \in {"correlation", "score"} -> c.a = 3 /\ c.b \in {0, 1}
      [] c.fn = "score-centroids" -> c.a = 0
      [] c.fn = "write-ext" -> c.a = 0
      [] c.fn = "write-shape" -> c.a = 1 \/ (c.a = 2 /\ c.b \in {1, 2})
      [] c.fn = "write-type" -> c.a <= 2
      [] c.fn = "lqpqm2" -> c.a # 2
      [] OTHER -> c.a = 0
FnVerdict(c) == IF FnSupported(c) THEN "accept" ELSE "refuse"

(* ------------------------------------------------------------------ machine *)
OneAway(k) == {BaseReq(k)} \cup UNION {{[BaseReq(k) EXCEPT ![s] = v] : v \in Values(k, s)} : s \in Slots(k)}
TwoAway(k) == UNION {UNION {{[q EXCEPT ![s] = v] : v \in Values(k, s)} : s \in Slots(k)} : q \in OneAway(k)}
AInit == /\ cls \in Classes /\ req \in (IF Wide THEN TwoAway(cls) ELSE OneAway(cls))
         /\ iters \in {0, 1, 2} /\ gate = "build" /\ status = "open"
Look(g) == IF Broken(cls, req, g) # {} THEN status' = "refused" ELSE status' = status
ANext == /\ status = "open" /\ UNCHANGED <<cls, req>>
         /\ CASE gate = "build" -> Look("build") /\ gate' = (IF iters = 0 THEN "finish" ELSE "update") /\ UNCHANGED iters
              [] gate = "update" -> Look("update") /\ iters' = iters - 1 /\ gate' = (IF iters = 1 THEN "finish" ELSE "update")
              [] OTHER -> IF Broken(cls, req, "finish") # {} THEN status' = "refused" /\ UNCHANGED <<gate, iters>>
                          ELSE status' = "returned" /\ UNCHANGED <<gate, iters>>
ASpec == AInit /\ [][ANext]_avars
NothingUnsupportedComputed == status = "returned" => Verdict(cls, req, 0) # "refuse"
NothingSupportedRefused == status = "refused" => ~Supported(cls, req)
(* once an update has been made, a result means the request was supported *)
Exact == [][gate = "update" /\ gate' = "finish" /\ status' = "open" => Broken(cls, req, "update") = {}]_avars
Consistent == /\ Supported(cls, BaseReq(cls))
              /\ \A s \in Slots(cls) : req[s] \in Values(cls, s)
================================================================================
