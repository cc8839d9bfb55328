----------------------------- MODULE BuffersTrace -----------------------------
(* Recorded histories of real buffers and views against Buffers.             *)
EXTENDS Buffers, HistTrace
InvWellFormed == WellFormed(st) /\ ViewsInside(st)
===============================================================================
