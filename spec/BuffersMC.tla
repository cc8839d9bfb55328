------------------------------ MODULE BuffersMC -------------------------------
(* Every history of resizes, views and writes over small buffers.            *)
EXTENDS Buffers, Json, TLC
CONSTANTS Max, Kind, NViews, Sizes, Writes, Outside, Owner
VARIABLE s
Start(n) == [data |-> [i \in 1..n |-> i], max |-> IF Kind = "resizable" THEN Max ELSE n,
             rsz |-> Kind = "resizable", ro |-> Kind = "readonly", views |-> <<>>, over |-> <<>>]
Init == \E n \in 0..Max : s = Start(n)
BO == {-2, 0, 1, 2, Max}
Room == Len(s.views) < NViews
VI == 1..Len(s.views)
Ops == {<<"look">>} \cup {<<"resize", n>> : n \in -1..Max + 1}
  \cup (IF Room THEN
          {<<"create", z, bo, bl, 0>> : z \in Sizes, bo \in BO, bl \in BO \cup {-1}}
          \cup {<<"frombytes", z, bo, bl, 1>> : z \in Sizes, bo \in {0, 2}, bl \in {0, 2, -1}}
          \cup {<<"new", z, o, l, 0>> : z \in Sizes, o \in {x - 1 : x \in Outside}, l \in {-2, -1, 0, 1}}
        ELSE {})
  \cup (IF Writes THEN {<<"fill", i, 9>> : i \in VI}
                        \cup {<<"poke", i, 1, 8>> : i \in VI} ELSE {})
  \cup (IF Owner THEN {<<"own", n>> : n \in (IF Kind = "resizable" THEN {1} ELSE {}) \cup {s.max, s.max + 2}} ELSE {})
  \cup {<<"peek", i, k>> : i \in VI, k \in 0..2}
Next == \E op \in Ops :
          LET a == Apply(s, op)
          IN /\ PrintT("T " \o ToJson([s |-> s, op |-> op, r |-> a.r, t |-> a.s]))
             /\ s' = a.s
Spec == Init /\ [][Next]_s
InvWellFormed == WellFormed(s)
InvViews == ViewsInside(s)
===============================================================================
