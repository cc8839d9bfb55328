---------------------------- MODULE DataViewTrace -----------------------------
(* Recorded accesses of real views against DataView.                         *)
EXTENDS DataView, HistTrace
InvRounds == \A t \in Types : Inside(st, t, 0) => Rounds(t, At(st, t, 0, 1))
===============================================================================
