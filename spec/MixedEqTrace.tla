----------------------------- MODULE MixedEqTrace -----------------------------
(* Recorded comparisons of real JSMaps and JSSets against MixedEq.            *)
EXTENDS MixedEq, HistTrace
===============================================================================
