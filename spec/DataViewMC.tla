----------------------------- MODULE DataViewMC ------------------------------
(* Every access of every type at every offset of one view, from given bytes; *)
(* VALS: [type |-> values to write], BYTES: the initial contents.            *)
EXTENDS DataView, Json, IOUtils
CONSTANTS Lo, VLen
VARIABLES s, depth
In == ndJsonDeserialize(IOEnv.KEYS)[1]
Init == \E i \in 1..Len(In.bytes) : s = [data |-> In.bytes[i], lo |-> Lo, len |-> VLen] /\ depth = 0
Vals(t) == IF IsFloat(t) THEN In.floats ELSE In.ints
\* typed arrays start at multiples of their element size
Aligned(t) == Lo % Size(t) = 0
Ops == {<<"get", t, o, le>> : t \in Types, o \in -1..VLen, le \in {0, 1}}
  \cup {<<"elget", t, i>> : t \in {x \in Types : Aligned(x)}, i \in 0..VLen}
  \cup UNION {{<<"set", t, o, le, Vals(t)[i]>> : o \in -1..VLen, le \in {0, 1}, i \in 1..Len(Vals(t))} : t \in Types}
  \cup UNION {{<<"elset", t, k, Vals(t)[i]>> : k \in 0..(VLen \div Size(t)) - 1,
                                               i \in 1..Len(Vals(t))} : t \in {x \in Types : Aligned(x)}}
Ok(op) == \* an element write too large for a binary32/16 is left open
          ~(op[1] = "elset" /\ IsFloat(op[2]) /\ ~Fits(op[2], op[4]))
          \* (the value refused and the offset refused at once)
          /\ (op[1] = "set" /\ ~Inside(s, op[2], op[3]) => Fits(op[2], op[5]))
Next == /\ depth = 0 /\ depth' = 1
        /\ \E op \in Ops : /\ Ok(op)
             /\ LET a == Apply(s, op)
                IN /\ PrintT("T " \o ToJson([s |-> s, op |-> op, r |-> a.r, t |-> a.s]))
                   /\ s' = a.s
Spec == Init /\ [][Next]_<<s, depth>>
InvRounds == \A t \in Types : \A o \in 0..VLen - Size(t) : \A le \in {0, 1} : Rounds(t, At(s, t, o, le))
InvSize == Len(s.data) >= Lo + VLen
===============================================================================
