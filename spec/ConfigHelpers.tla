--------------------------- MODULE ConfigHelpers ---------------------------
(* Free functions: documented defaults and deprecated names.                   *)
EXTENDS Naturals, Sequences, TLC, Json
VARIABLE out
Defaults == <<
  <<"special.flooring.max_flooring", "eps", "1e-10">>, <<"special.flooring.add_flooring", "eps", "1e-10">>,
  <<"special.psd.to_psd", "axis1", "-2">>, <<"special.psd.to_psd", "axis2", "-1">>, <<"special.psd.to_psd", "flooring_fn", "floor">>,
  <<"special.softmax.softmax", "axis", "None">>, <<"special.logsumexp.logsumexp", "axis", "None">>, <<"special.logsumexp.logsumexp", "keepdims", "False">>,
  <<"algorithm.projection_back.projection_back", "reference_id", "0">>,
  <<"algorithm.minimal_distortion_principle.minimal_distortion_principle", "reference_id", "0">>,
  <<"algorithm.permutation_alignment.correlation_based_permutation_solver", "overwrite", "True">>,
  <<"algorithm.permutation_alignment.correlation_based_permutation_solver", "flooring_fn", "floor">>,
  <<"algorithm.permutation_alignment.score_based_permutation_solver", "overwrite", "True">>,
  <<"algorithm.permutation_alignment.score_based_permutation_solver", "flooring_fn", "floor">>,
  <<"algorithm.permutation_alignment.score_based_permutation_solver", "global_iter", "1">>,
  <<"algorithm.permutation_alignment.score_based_permutation_solver", "local_iter", "1">>,
  <<"algorithm.permutation_alignment.score_based_permutation_solver", "multi_centroids", "False">>,
  <<"transform.pca.pca", "ascend", "True">>,
  <<"linalg.eigh.eigh", "type", "1">>, <<"linalg.eigh.eigh2", "type", "1">>, <<"linalg.mean.gmeanmh", "type", "1">>,
  <<"linalg.prox.l1", "step_size", "1">>, <<"linalg.prox.l21", "step_size", "1">>, <<"linalg.prox.l21", "axis1", "-2">>, <<"linalg.prox.l21", "axis2", "-1">>,
  <<"linalg.prox.neg_log", "step_size", "1">>, <<"linalg.prox.neg_logdet", "step_size", "1">>,
  <<"linalg.polynomial.solve_cubic", "all", "True">>,
  <<"linalg.lqpqm.lqpqm2", "flooring_fn", "floor">>, <<"linalg.lqpqm.lqpqm2", "max_iter", "10">>, <<"linalg.lqpqm.lqpqm2", "singular_fn", "flooring">>,
  <<"utils.select_pair.sequential_pair_selector", "stop", "None">>, <<"utils.select_pair.sequential_pair_selector", "step", "1">>,
  <<"utils.select_pair.sequential_pair_selector", "sort", "False">>, <<"utils.select_pair.combination_pair_selector", "sort", "False">> >>
(* name, deprecated name, and a parameter with which both are called as well *)
Aliases == <<
  <<"special.flooring.max_flooring", "bss._flooring.max_flooring", "-", "-">>, <<"special.flooring.max_flooring", "bss._flooring.max_flooring", "eps", "0.5">>,
  <<"special.flooring.add_flooring", "bss._flooring.add_flooring", "-", "-">>, <<"special.flooring.add_flooring", "bss._flooring.add_flooring", "eps", "0.5">>,
  <<"special.flooring.identity", "bss._flooring.identity", "-", "-">>,
  <<"special.psd.to_psd", "bss._psd.to_psd", "-", "-">>, <<"special.psd.to_psd", "bss._psd.to_psd", "axis1", "-2">>, <<"special.psd.to_psd", "bss._psd.to_psd", "flooring_fn", "None">>,
  <<"utils.select_pair.sequential_pair_selector", "bss._select_pair.sequential_pair_selector", "-", "-">>,
  <<"utils.select_pair.sequential_pair_selector", "bss._select_pair.sequential_pair_selector", "stop", "1">>,
  <<"utils.select_pair.sequential_pair_selector", "bss._select_pair.sequential_pair_selector", "step", "2">>,
  <<"utils.select_pair.sequential_pair_selector", "bss._select_pair.sequential_pair_selector", "sort", "True">>,
  <<"utils.select_pair.combination_pair_selector", "bss._select_pair.combination_pair_selector", "-", "-">>,
  <<"utils.select_pair.combination_pair_selector", "bss._select_pair.combination_pair_selector", "sort", "True">>,
  <<"algorithm.permutation_alignment.correlation_based_permutation_solver", "bss._solve_permutation.correlation_based_permutation_solver", "-", "-">>,
  <<"algorithm.permutation_alignment.correlation_based_permutation_solver", "bss._solve_permutation.correlation_based_permutation_solver", "overwrite", "False">>,
  <<"algorithm.permutation_alignment.correlation_based_permutation_solver", "bss._solve_permutation.correlation_based_permutation_solver", "flooring_fn", "None">> >>
(* number of iterations when none is given *)
Iterations == 100
Classes == <<"GradICA", "NaturalGradICA", "GradLaplaceICA", "NaturalGradLaplaceICA", "FastICA", "GradFDICA", "NaturalGradFDICA", "GradLaplaceFDICA",
  "NaturalGradLaplaceFDICA", "AuxFDICA", "AuxLaplaceFDICA", "GradIVA", "NaturalGradIVA", "GradLaplaceIVA", "NaturalGradLaplaceIVA", "GradGaussIVA",
  "NaturalGradGaussIVA", "FastIVA", "FasterIVA", "AuxIVA", "AuxLaplaceIVA", "AuxGaussIVA", "PDSIVA", "ADMMIVA", "GaussILRMA", "TILRMA", "GGDILRMA",
  "GaussIPSDTA", "TIPSDTA", "GaussMNMF", "FastGaussMNMF", "CACGMM", "PDSBSS", "MaskingPDSBSS", "ADMMBSS", "MaskingADMMBSS", "MaskingPDSHVA",
  "MaskingADMMHVA", "HVA">>
M == Len(Defaults) + Len(Aliases)
N == M + Len(Classes)
Row(i) == IF i > M THEN [id |-> i, name |-> Classes[i - M], par |-> "n_iter", value |-> ToString(Iterations), alias |-> "-", iters |-> Iterations] ELSE
          IF i <= Len(Defaults) THEN [id |-> i, name |-> Defaults[i][1], par |-> Defaults[i][2], value |-> Defaults[i][3], alias |-> "-"]
          ELSE [id |-> i, name |-> Aliases[i - Len(Defaults)][1], par |-> Aliases[i - Len(Defaults)][3],
                value |-> Aliases[i - Len(Defaults)][4], alias |-> Aliases[i - Len(Defaults)][2]]
Init == out = 1
Next == out <= N /\ out' = out + 1 /\ PrintT("@@CASE " \o ToJson(Row(out)))
Spec == Init /\ [][Next]_out
=============================================================================
