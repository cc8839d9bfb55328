------------------------------- MODULE MapSetMC -------------------------------
(* Every transition of Map (Machine = "map") or Set for up to Bound entries. *)
EXTENDS MapSet, Json, IOUtils
CONSTANTS Bound, Kind
VARIABLE s
Pool == ndJsonDeserialize(IOEnv.KEYS)[1]
KI == 1..Len(Pool)
Init == s = <<>>
Do(a, op) == /\ Len(a.s) <= Bound
             /\ PrintT("T " \o ToJson([s |-> s, op |-> op, r |-> a.r, t |-> a.s]))
             /\ s' = a.s
M(op) == Do(MapApply(s, op), op)
S(op) == Do(SetApply(s, op), op)
NextMap ==
  \/ \E n \in {"popitem", "clear", "len", "keys", "values", "copy"} : M(<<n>>)
  \/ \E n \in {"get", "getnone", "has", "del", "pop"}, i \in KI : M(<<n, Pool[i]>>)
  \/ \E n \in {"getdef", "popdef"}, i \in KI : M(<<n, Pool[i], 9>>)
  \/ \E n \in {"set", "setdefault"}, i \in KI, v \in {0, 2} : M(<<n, Pool[i], v>>)
  \/ \E n \in {"update", "updatemap"}, i, j \in KI :
        (i * 7 + j) % 6 = 0 /\ M(<<n, Pool[i], 0, Pool[j], 2>>)
NextSet ==
  \/ \E n \in {"pop", "clear", "len", "keys", "copy", "iorself", "iandself", "isubself",
               "ixorself"} : S(<<n>>)
  \/ \E n \in {"add", "discard", "remove", "has"}, i \in KI : S(<<n, Pool[i]>>)
  \/ \E n \in {"or", "orl", "rorl", "and", "andl", "randl", "sub", "subl", "rsubl", "xor", "xorl",
               "rxorl", "ior", "iorl", "iand", "iandl", "isub", "isubl", "ixor", "ixorl", "le",
               "lt", "ge", "gt", "disjoint", "disjointl"}, i, j \in KI :
        (i * 5 + j + Len(s)) % 4 = 0 /\
        (\/ S(<<n, <<48>>, <<Pool[i], Pool[j]>> >>) \/ (i = j /\ S(<<n, <<48>>, <<>> >>)))
Next == IF Kind = "map" THEN NextMap ELSE NextSet
Spec == Init /\ [][Next]_s
InvWellFormed == EntriesWellFormed(s)
InvKeys == SameIsEquivalence({Pool[i] : i \in KI})
InvLaws == Kind = "set" => \A i, j \in KI : SetLaws(s, AsSet(<<Pool[i], Pool[j]>>))
===============================================================================
