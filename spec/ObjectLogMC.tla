----------------------------- MODULE ObjectLogMC ------------------------------
EXTENDS ObjectLog, Json, TLC
CONSTANTS Bound, NObj
VARIABLE s
O == 1..NObj
Ops(q) == {<<n>> : n \in {"end", "fail"}}
  \cup {<<n, o>> : n \in {"record", "begin", "has", "getid", "refer"}, o \in O}
  \cup {<<"getobj", i>> : i \in -1..Bound}
  \cup {<<"replace", i, o>> : i \in -1..Bound - 1, o \in O}
Init == s = Empty
Next == \E op \in Ops(s) :
          /\ Enabled(s, op)
          /\ LET a == Apply(s, op)
             IN /\ Len(a.s.log) <= Bound
                /\ PrintT("T " \o ToJson([s |-> s, op |-> op, r |-> a.r, t |-> a.s]))
                /\ s' = a.s
Spec == Init /\ [][Next]_s
InvWellFormed == WellFormed(s) /\ LatestIsLast(s)
===============================================================================
