------------------------------ MODULE ScaleMC ------------------------------
(* Bounded instances of Scale                                                *)
EXTENDS Scale
SmallEntries == {<<0, 0>>, <<1, 0>>, <<0, 1>>, <<-1, 1>>}
SmallSizes == {2}
SmallSamples == {<<0, 0>>, <<1, 0>>, <<0, -1>>, <<1, 2>>}
ThreeEntries == {<<0, 0>>, <<1, 0>>, <<0, 1>>}
ThreeSizes == {3}
OneSample == {<<0, 0>>, <<1, 1>>}
=============================================================================
