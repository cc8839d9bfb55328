------------------------------ MODULE JSObjTrace ------------------------------
(* Recorded histories of real JSObject / JSArray objects against JSObj.      *)
EXTENDS JSObj, HistTrace
InvWellFormed == ObjWellFormed(st)
===============================================================================
