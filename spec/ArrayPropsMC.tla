----------------------------- MODULE ArrayPropsMC -----------------------------
(* Exhaustive exploration of ArrayProps for short arrays; every transition   *)
(* is printed so that the real storages can be driven through it.            *)
EXTENDS ArrayProps, Json, TLC

CONSTANTS Bound, Vals
VARIABLE s
IxS == -(Bound + 2)..(Bound + 2)
V0 == Vals \cup {HOLE}

Ops ==
  {<<n>> : n \in {"pop", "reverse", "clear", "len", "used", "asc", "desc", "iter", "riter",
                  "extendself", "densify", "sparsify", "sparsifyentries"}}
  \cup {<<n, i>> : n \in {"get", "del", "popat", "elget"}, i \in IxS}
  \cup {<<n, i, v>> : n \in {"set", "insert"}, i \in IxS, v \in V0}
  \cup {<<n, v>> : n \in {"append", "iadd", "remove", "index", "contains", "count"}, v \in V0}
  \cup {<<"extend", v, w>> : v \in V0, w \in V0}
  \cup {<<"resize", i>> : i \in -1..Bound}
  \cup {<<"indexin", v, i, j>> : v \in V0, i \in {-2, 0, 1, 3}, j \in {-1, 0, 2, 9}}

Init == s = Empty
Next == \E op \in Ops :
          LET a == Apply(s, op)
          IN /\ a.s.len <= Bound
             /\ PrintT("T " \o ToJson([s |-> s, op |-> op, r |-> a.r, t |-> a.s]))
             /\ s' = a.s
Spec == Init /\ [][Next]_s
InvWellFormed == WellFormed(s)
InvLaws == Laws(s)
===============================================================================
