------------------------------ MODULE LeafEqTrace -----------------------------
(* Recorded comparisons of real leaf values against LeafEq.                  *)
EXTENDS LeafEq, HistTrace
InvEquivalence == Equivalence(st)
===============================================================================
