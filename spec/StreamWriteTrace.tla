--------------------------- MODULE StreamWriteTrace ---------------------------
(* Recorded sequences of write calls against Stream.                          *)
EXTENDS Stream, HistTrace
Apply(q, op) == LET a == W(q, op) IN [s |-> a.s, r |-> a.r]
================================================================================
