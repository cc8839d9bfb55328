------------------------------ MODULE EqualityMC -------------------------------
(* Every graph of N nodes of the kinds, each with up to two children.         *)
EXTENDS Equality, Json
CONSTANTS N, Kinds, Prims, Labels
VARIABLES g, done
Prim == {0 - p : p \in 0..(Prims - 1)}
Node == UNION {{[k |-> k, c |-> f] : f \in UNION {[D -> (1..N) \cup Prim] : D \in SUBSET (1..Labels)}} : k \in 1..Kinds}
\* arrays and the like: no gaps in the labels
Tidy(n) == \A l \in DOMAIN n.c : \A m \in 1..l : m \in DOMAIN n.c
Init == /\ done = FALSE /\ g \in [1..N -> {n \in Node : Tidy(n)}]
        /\ g[1].k = 1
Matrix == [x \in 1..N |-> [y \in 1..N |-> IF Equal(g, x, y) THEN 1 ELSE 0]]
Show == [x \in 1..N |-> <<g[x].k, [i \in 1..Cardinality(DOMAIN g[x].c) |-> g[x].c[i]]>>]
Next == ~done /\ done' = TRUE /\ UNCHANGED g /\ PrintT("T " \o ToJson(<<Show, Matrix>>))
Spec == Init /\ [][Next]_<<g, done>>

Pairs == (1..N) \X (1..N)
Reflexive == \A x \in 1..N : Equal(g, x, x)
Symmetric == \A p \in Pairs : Equal(g, p[1], p[2]) = Equal(g, p[2], p[1])
SameStructureIsEqual == \A p \in Pairs : Iso(g, p[1], p[2]) => Equal(g, p[1], p[2])
DifferentIsUnequal == \A p \in Pairs : Equal(g, p[1], p[2]) => Same(g, p[1], p[2])
================================================================================
