------------------------------- MODULE CallHist -------------------------------
(* Histories of calls: the result of call id is the one it has in a fresh     *)
(* process, its input stays what it was, and what the caller does with a      *)
(* result has no effect on later calls.  There is no state at all.            *)
EXTENDS HistTrace
REF == ndJsonDeserialize(IOEnv.KEYS)[1]
Apply(s, op) == [s |-> s, r |-> CASE op[1] = "call" -> REF.res[op[2]]
                                  [] op[1] = "input" -> REF.inp[op[2]]
                                  [] op[1] = "spoil" -> "done"]
===============================================================================
