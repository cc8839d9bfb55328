------------------------------- MODULE Equality --------------------------------
(* == of graphs of objects, arrays, maps, sets and errors that can share      *)
(* parts and be cyclic.  A graph is a sequence of nodes [k, c]: the kind and  *)
(* a function from labels (property names, positions) to children.  A child   *)
(* n > 0 is node n; any other integer is a primitive.                         *)
EXTENDS Integers, Sequences, FiniteSets, TLC

\* L and R: the comparisons that are running, as the pairs <<left, right>>.
\* The sides of a comparison must use the same identity structure: an object
\* met again must be met again opposite the same object.
RECURSIVE Eq(_, _, _, _)
Eq(g, x, y, run) ==
    IF x <= 0 \/ y <= 0 THEN x = y
    ELSE IF x = y THEN TRUE
    ELSE IF \E p \in run : p[1] = x \/ p[2] = y THEN <<x, y>> \in run
    ELSE /\ g[x].k = g[y].k
         /\ DOMAIN g[x].c = DOMAIN g[y].c
         /\ \A l \in DOMAIN g[x].c : Eq(g, g[x].c[l], g[y].c[l], run \cup {<<x, y>>})
Equal(g, x, y) == Eq(g, x, y, {})

----------------------------------------------------------------------------
(* What this means.                                                          *)
Kids(g, X) == X \cup {n \in UNION {{g[x].c[l] : l \in DOMAIN g[x].c} : x \in X} : n > 0}
RECURSIVE Reach(_, _)
Reach(g, X) == LET Y == Kids(g, X) IN IF Y = X THEN X ELSE Reach(g, Y)

Local(g, x, y) == g[x].k = g[y].k /\ DOMAIN g[x].c = DOMAIN g[y].c
\* same structure: a one-to-one correspondence of what is reachable
Iso(g, x, y) ==
    LET A == Reach(g, {x})  B == Reach(g, {y})
    IN /\ Cardinality(A) = Cardinality(B)
       /\ \E f \in [A -> B] :
            /\ f[x] = y /\ \A a, b \in A : f[a] = f[b] => a = b
            /\ \A a \in A : /\ Local(g, a, f[a])
                            /\ \A l \in DOMAIN g[a].c :
                                 LET u == g[a].c[l]  v == g[f[a]].c[l]
                                 IN IF u > 0 THEN v > 0 /\ v = f[u] ELSE u = v
\* no path leads to a difference: the largest bisimulation
RECURSIVE Shrink(_, _)
Shrink(g, P) ==
    LET Q == {p \in P : /\ Local(g, p[1], p[2])
                        /\ \A l \in DOMAIN g[p[1]].c :
                             LET u == g[p[1]].c[l]  v == g[p[2]].c[l]
                             IN IF u > 0 /\ v > 0 THEN <<u, v>> \in P ELSE u = v}
    IN IF Q = P THEN P ELSE Shrink(g, Q)
Same(g, x, y) == <<x, y>> \in Shrink(g, (1..Len(g)) \X (1..Len(g)))
================================================================================
