-------------------------------- MODULE StepsMC --------------------------------
(* Every sequence of up to Max steps applied to every value or stream.        *)
EXTENDS Steps, Json
CONSTANTS Dir, Max
VARIABLES S, v, R
Nothing == [log |-> <<>>, err |-> "?"]
EncSteps == {<<"pass">>, <<"catch">>, <<"retry">>, <<"rescue">>, <<"refs">>, <<"writer">>}
    \cup {<<"replace", a[1], a[2]>> : a \in {<<"x", "p">>, <<"p", "x">>, <<"n", "q">>, <<"x", "L">>, <<"L", "O">>, <<"y", "x">>}}
    \cup {<<"restart", a[1], a[2]>> : a \in {<<"x", "p">>, <<"y", "T">>, <<"L", "E">>, <<"p", "x">>}}
    \cup {<<"handle", a>> : a \in {"x", "p", "L", "n"}} \cup {<<"refuse", "y">>} \cup {<<"pair", "x">>}
DecSteps == {<<"pass">>, <<"catch">>, <<"reader">>}
    \cup {<<"wrap", a>> : a \in {"z", "[", "{", "^", "u"}}
    \cup {<<"retag", a[1], a[2]>> : a \in {<<"z", "t">>, <<"t", "f">>, <<"u", "z">>}}
    \cup {<<"restart", a[1], a[2]>> : a \in {<<"z", "t">>, <<"u", "z">>, <<"t", "u">>}}
    \cup {<<"handle", a>> : a \in {"s", "u", "t", "f"}} \cup {<<"refuse", "z">>}
\* up to Max steps, alone or before the last one, and perhaps one more after it
Seqs(X, Last, After) == UNION {[1..k -> X] : k \in 0..1}
    \cup {T \o <<Last>> \o U : T \in UNION {[1..k -> X] : k \in 0..Max}, U \in {<<>>} \cup {<<a>> : a \in After}}
Init == /\ R = Nothing
        /\ IF Dir = "enc" THEN S \in Seqs(EncSteps, <<"writer">>, {<<"handle", "x">>, <<"pass">>, <<"replace", "x", "p">>, <<"restart", "x", "q">>}) /\ v \in Values ELSE S \in Seqs(DecSteps, <<"reader">>, {<<"handle", "u">>, <<"wrap", "u">>, <<"restart", "u", "z">>}) /\ v \in Streams
Eval(T) == IF Dir = "enc" THEN LET e == Encode(T, v) IN [s |-> T, v |-> v, log |-> e.log, out |-> e.out, err |-> e.err, ev |-> e.ev, cut |-> e.cut]
           ELSE LET d == Decode(T, v) IN [s |-> T, v |-> v, log |-> d.st.log, out |-> d.v, err |-> d.st.err, ev |-> d.st.et, pos |-> d.st.pos]
Next == R = Nothing /\ R' = Eval(S) /\ PrintT("T " \o ToJson(R')) /\ UNCHANGED <<S, v>>
Spec == Init /\ [][Next]_<<S, v, R>>

\* steps are called in order: after step i comes i + 1, or the first for something nested or encoded again
InOrder == (\A k \in 1..Len(S) : S[k][1] # "pair") => \A k \in 1..(Len(R.log) - 1) : R.log[k + 1][1] <= R.log[k][1] + 1
StartsAtFirst == R.log # <<>> => R.log[1] = <<1, IF Dir = "enc" THEN v ELSE v[1]>>
NoStepsNothing == R # Nothing /\ S = <<>> => R.err = "unhandled"
\* a step that only delegates can be left out
PassIsNothing == R # Nothing /\ R.err # "endless" => \A k \in 1..Len(S) : S[k] = <<"pass">> =>
    LET T == Eval(SubSeq(S, 1, k - 1) \o SubSeq(S, k + 1, Len(S))) IN T.out = R.out /\ T.err = R.err
================================================================================
