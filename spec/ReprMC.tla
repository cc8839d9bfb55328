--------------------------------- MODULE ReprMC --------------------------------
(* All small graphs under all small limits, with what their repr shows.       *)
EXTENDS Repr, Json
CONSTANTS Nodes, MaxKids, Shapes, Levels, Limits
VARIABLES g, lim, lvl, done
vars == <<g, lim, lvl, done>>

Kids == UNION {[1..k -> 0..Nodes] : k \in 0..MaxKids}   \* 0: a leaf
Pre == [shape : Shapes, kids : Kids]
Leaf(n, i) == "L" \o ToString(n) \o "." \o ToString(i)
Name(n, i) == "N" \o ToString(n) \o "." \o ToString(i)
Kid(n, i, c) == IF c = 0 THEN [k |-> "l", v |-> Leaf(n, i)] ELSE [k |-> "n", v |-> c]
Tag(n, i) == [k |-> "t", v |-> Name(n, i)]
Node(n, p, max) ==
  LET ks == p.kids
      E(i) == <<Tag(n, i), Kid(n, i, ks[i])>>
  IN [head |-> "H" \o ToString(n), fresh |-> p.shape = "fresh",
      max |-> IF p.shape \in {"fresh", "chain"} THEN -1 ELSE max,
      parts |-> CASE p.shape = "bag" -> <<[i \in 1..Len(ks) |-> E(i)]>>
                  [] p.shape = "two" -> <<[i \in 1..Least(1, Len(ks)) |-> E(i)],
                                          [i \in 1..(Len(ks) - Least(1, Len(ks))) |-> E(i + 1)]>>
                  [] p.shape = "map" -> <<[i \in 1..Len(ks) |-> <<Kid(n, i, ks[i]), [k |-> "l", v |-> Name(n, i)]>>]>>
                  [] p.shape = "mapv" -> <<[i \in 1..Len(ks) |-> <<[k |-> "l", v |-> Name(n, i)], Kid(n, i, ks[i])>>]>>
                  [] p.shape = "chain" -> <<<<<<[k |-> "l", v |-> Name(n, 0)]>>>> \o [i \in 1..Len(ks) |-> <<Kid(n, i, ks[i])>>]>>
                  [] p.shape = "fresh" -> <<<<<<[k |-> "t", v |-> Name(n, 0)]>>>> \o [i \in 1..Len(ks) |-> <<Kid(n, i, ks[i])>>]>>
                  [] OTHER -> <<[i \in 1..Len(ks) |-> E(i)]>>]
Graph(pre, max) == [n \in 1..Nodes |-> Node(n, pre[n], max)]
Few(pre) == \A n \in 1..Nodes : pre[n].shape \in {"fresh", "chain"} => Len(pre[n].kids) <= 1
Init == /\ g \in {p \in [1..Nodes -> Pre] : Few(p)} /\ lim \in Limits /\ lvl \in Levels /\ done = FALSE
Next == /\ ~done /\ done' = TRUE /\ UNCHANGED <<g, lim, lvl>>
        /\ PrintT("G " \o ToJson([g |-> g, lim |-> lim, lvl |-> lvl, t |-> Shown(Graph(g, lim), lvl, 1)]))
Spec == Init /\ [][Next]_vars
All == ShowsAll(Graph(g, lim), lvl, 1)
=============================================================================
