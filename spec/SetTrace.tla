------------------------------- MODULE SetTrace --------------------------------
(* Recorded histories of real JSSet objects against MapSet.                  *)
EXTENDS MapSet, HistTrace
Apply(s, op) == SetApply(s, op)
InvWellFormed == EntriesWellFormed(st)
===============================================================================
