----------------------------- MODULE EqualityTrace -----------------------------
(* Recorded histories of real comparisons.  The state is the graph, as        *)
(* <<kind, <<<<label, child>>, ...>>>> per node; a comparison that raised     *)
(* (an element's == raised) has the result 9.  No comparison has an effect.   *)
EXTENDS Equality, HistTrace
G(s) == [n \in 1..Len(s) |->
          [k |-> s[n][1], c |-> [l \in {s[n][2][j][1] : j \in 1..Len(s[n][2])} |->
             s[n][2][CHOOSE j \in 1..Len(s[n][2]) : s[n][2][j][1] = l][2]]]]
Apply(s, op) == [s |-> s, r |-> IF op.raised = 1 THEN 9 ELSE IF Equal(G(s), op.x, op.y) THEN 1 ELSE 0]
================================================================================
