------------------------------- MODULE MapTrace --------------------------------
(* Recorded histories of real JSMap objects against MapSet.                  *)
EXTENDS MapSet, HistTrace
Apply(s, op) == MapApply(s, op)
InvWellFormed == EntriesWellFormed(st)
===============================================================================
