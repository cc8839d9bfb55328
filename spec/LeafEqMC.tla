------------------------------- MODULE LeafEqMC -------------------------------
(* Every history of writes and resizes of the buffers below groups of values. *)
EXTENDS LeafEq, Json, IOUtils
CONSTANTS Depth
VARIABLES s, n
U == ndJsonDeserialize(IOEnv.KEYS)[1]     \* [s: start, poke: <<buffer, position>>s, bytes, sizes]
VARIABLE u
Init == u \in 1..Len(U) /\ s = U[u].s /\ n = 0
Ops == {<<"look">>}
  \cup {<<"write", U[u].poke[i][1], U[u].poke[i][2], U[u].bytes[k]>> :
          i \in {i \in DOMAIN U[u].poke : CanWrite(s, U[u].poke[i][1], U[u].poke[i][2])},
          k \in DOMAIN U[u].bytes}
  \cup {<<"resize", b, U[u].sizes[k]>> :
          b \in {b \in DOMAIN s.bufs : s.bufs[b].rsz}, k \in DOMAIN U[u].sizes}
Next == \E op \in Ops :
          /\ op[1] = "resize" => CanResize(s, op[2], op[3])
          /\ n < Depth \/ op[1] = "look"
          /\ LET a == Apply(s, op)
             IN /\ PrintT("T " \o ToJson([s |-> s, op |-> op, r |-> a.r, t |-> a.s]))
                /\ s' = a.s
          /\ n' = IF op[1] = "look" THEN n ELSE n + 1
          /\ UNCHANGED u
Spec == Init /\ [][Next]_<<s, n, u>>
View == <<s, u>>
InvEquivalence == Equivalence(s)
InvSameBytes == SameBytes(s)
\* hashable values are equal, or not, for ever
PropHashStable == [][LET K == AllKeys(s)
                         L == AllKeys(s')
                     IN \A i, j \in N(s) : Hashable(s, i) /\ Hashable(s, j) =>
                          (EqKeys(K, i, j) = EqKeys(L, i, j))]_s
===============================================================================
