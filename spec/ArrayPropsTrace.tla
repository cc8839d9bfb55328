--------------------------- MODULE ArrayPropsTrace ----------------------------
(* Recorded histories of the real array storages against ArrayProps.         *)
EXTENDS ArrayProps, HistTrace
InvWellFormed == WellFormed(st)
===============================================================================
