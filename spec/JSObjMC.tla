------------------------------- MODULE JSObjMC --------------------------------
(* Every transition of JSObj for objects of up to Bound properties over a    *)
(* list of key spellings (KeySet: JSON file).                                *)
EXTENDS JSObj, Json, IOUtils
CONSTANTS Bound
VARIABLE s
Spellings == ndJsonDeserialize(IOEnv.KEYS)[1]
KI == 1..Len(Spellings)
Init == s = EmptyObj
Do(op) == LET a == Apply(s, op)
          IN /\ OLen(a.s) <= Bound
             /\ PrintT("T " \o ToJson([s |-> s, op |-> op, r |-> a.r, t |-> a.s]))
             /\ s' = a.s
Next ==
  \/ \E n \in {"popitem", "clear", "len", "keys", "values", "rkeys", "arrlen"} : Do(<<n>>)
  \/ \E n \in {"get", "has", "del", "pop"}, i \in KI : Do(<<n, Spellings[i]>>)
  \/ \E n \in {"getdef", "popdef"}, i \in KI : Do(<<n, Spellings[i], 9>>)
  \/ \E i \in KI, v \in {0, 1, 2} : Do(<<"set", Spellings[i], v>>)
  \/ \E i \in KI : Do(<<"setdefault", Spellings[i], 1>>)
  \/ \E i, j \in KI : (i + j) % 5 = 0 /\ Do(<<"update", Spellings[i], 1, Spellings[j], 2>>)
  \/ s.len \in {<<>>, <<1>>, <<2>>} /\ (\E v \in {0, 1} : Do(<<"push", StrTok(<<>>), v>>))
Spec == Init /\ [][Next]_s
InvWellFormed == ObjWellFormed(s)
InvKeys == KeyIdempotent({Spellings[i] : i \in KI})
===============================================================================
