------------------------------- MODULE ReprTrace -------------------------------
(* Recorded reprs of real values, and recorded histories of setting scopes.   *)
EXTENDS Repr, HistTrace
Apply(s, op) == IF op.o = "repr" THEN [s |-> s, r |-> Shown(s, op.level, op.n)] ELSE ScopeApply(s, op)
=============================================================================
