------------------------------ MODULE MixedEqMC -------------------------------
(* Every two sequences of insertions, and whether their containers are equal. *)
EXTENDS MixedEq, TLC, Json, IOUtils
VARIABLES u, a, b, kind, done
vars == <<u, a, b, kind, done>>
U == ndJsonDeserialize(IOEnv.KEYS)[1]    \* [keys, vals: <<token>>, max, kinds]
Es(x) == {<<x.keys[i], x.vals[j]>> : i \in 1..Len(x.keys), j \in 1..Len(x.vals)}
Puts(x) == UNION {[1..n -> Es(x)] : n \in 0..x.max}
Usable(e) == e[1].hash
Init == /\ u \in 1..Len(U) /\ kind \in {U[u].kinds[i] : i \in 1..Len(U[u].kinds)}
        /\ a \in Puts(U[u]) /\ b \in Puts(U[u])
        /\ kind = "py" => \A i \in 1..Len(b) : Usable(b[i])
        /\ done = FALSE
L == Make(a, "js")
R == Make(b, IF kind = "py" THEN "py" ELSE "js")
Ids(p) == [i \in 1..Len(p) |-> <<p[i][1].id, p[i][2].id>>]
Next == /\ ~done /\ done' = TRUE /\ UNCHANGED <<u, a, b, kind>>
        /\ PrintT("E " \o ToJson([u |-> u, a |-> Ids(a), b |-> Ids(b), kind |-> kind,
                                  eq |-> IF Equal(L, kind, R) THEN 1 ELSE 0]))
Spec == Init /\ [][Next]_vars
Symmetric == kind = "js" => (ListEq(L, R) <=> ListEq(R, L))
Itself == ListEq(L, L) /\ ((kind = "py" /\ Hashable(L) /\ Len(Make(L, "py")) = Len(L)) => MixedEq(L, Make(L, "py")))
\* equal as lists, and distinct entries: equal to the same dicts
Agrees == kind = "py" => (ListEq(L, Make(b, "js")) => (MixedEq(L, R) <=> MixedEq(Make(b, "js"), R)))
OrderFree == kind = "py" => (MixedEq(L, R) <=> MixedEq(L, Reverse(R)))
===============================================================================
