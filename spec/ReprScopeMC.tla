------------------------------ MODULE ReprScopeMC ------------------------------
(* All histories of a few scopes, in every order of leaving.                  *)
EXTENDS Repr, Json
CONSTANTS Scopes, Values, Rich
VARIABLES s, lifo
Default == [x |-> "0", y |-> "0", indent |-> "none"]
Ovs == {<<>>} \cup {[x |-> <<v>>] : v \in Values} \cup {[indent |-> <<"4">>], [x |-> <<>>], [indent |-> <<>>]}
       \cup (IF Rich THEN {[y |-> <<v>>] : v \in Values} \cup {[x |-> <<v>>, indent |-> <<>>] : v \in Values} ELSE {})
OpenIdx == {j \in 1..Len(s.scopes) : s.scopes[j].open}
Ops == (IF Len(s.scopes) < Scopes
        THEN {[o |-> "enter", ov |-> ov, force |-> f] : ov \in Ovs, f \in BOOLEAN}
             \cup {[o |-> "enter", ov |-> [zz |-> <<"1">>], force |-> FALSE]}
             \cup {[o |-> "use", inst |-> k, force |-> f] : k \in 1..2, f \in BOOLEAN}
        ELSE {})
       \cup {[o |-> "leave", scope |-> j, fail |-> b] : j \in OpenIdx, b \in BOOLEAN}
Init == s = [Start(Default) EXCEPT !.insts = Append(@, [x |-> "9", y |-> "8", indent |-> "1"])] /\ lifo = TRUE
Next == \E op \in Ops : LET a == ScopeApply(s, op) IN
          /\ ~("amb" \in DOMAIN a /\ a.amb)
          /\ s' = a.s
          /\ lifo' = (lifo /\ (op.o = "leave" => \A j \in OpenIdx : j <= op.scope))
          /\ PrintT("T " \o ToJson([s |-> s, op |-> op, r |-> a.r, t |-> a.s]))
Spec == Init /\ [][Next]_<<s, lifo>>
\* Scopes left in the order of nesting: the innermost open scope's settings are in force, and the
\* default's when none is open.
Nested == lifo => IF OpenIdx = {} THEN s.active = 1
                  ELSE s.active = s.scopes[CHOOSE j \in OpenIdx : \A k \in OpenIdx : k <= j].own
=============================================================================
