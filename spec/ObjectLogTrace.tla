---------------------------- MODULE ObjectLogTrace ----------------------------
(* Recorded histories of real object logs against ObjectLog.                 *)
EXTENDS ObjectLog, HistTrace
InvWellFormed == WellFormed(st)
===============================================================================
