------------------------------- MODULE RegExpMC --------------------------------
(* Every set of JavaScript flags and every set of Python flags.               *)
EXTENDS RegExp, Json
VARIABLES kind, fs, done
Py == {"A", "I", "L", "M", "S", "U", "X"}
Init == /\ done = FALSE
        /\ \/ kind = "js" /\ fs \in SUBSET JS
           \/ kind \in {"str", "bytes", "flags"} /\ fs \in SUBSET Py
Rec == IF kind = "js"
       THEN [kind |-> kind, fs |-> fs, num |-> Num(fs), text |-> Text(fs), valid |-> Valid(fs),
             has |-> HasPython(fs), py |-> AsPython(fs), finds |-> {p \in DOMAIN Probes : FindsJS(fs, p)}]
       ELSE IF kind = "flags" THEN [kind |-> kind, fs |-> fs, has |-> HasJS(fs), js |-> FromPython(fs)]
       ELSE LET P == PyCompiled(kind, fs)
            IN [kind |-> kind, fs |-> fs, legal |-> PyLegal(kind, fs), compiled |-> P, has |-> HasJS(P),
                js |-> FromPython(P), back |-> AsPython(FromPython(P)),
                finds |-> {p \in DOMAIN Probes : FindsPy(P, p)}]
Next == ~done /\ done' = TRUE /\ PrintT("T " \o ToJson(Rec)) /\ UNCHANGED <<kind, fs>>
Spec == Init /\ [][Next]_<<kind, fs, done>>

NumInverse == kind = "js" => FromNum(Num(fs)) = fs /\ Num(fs) \in 0..511 /\ Canonical(Num(fs) + 512 * 5) = Num(fs)
MeaningToPython == kind = "js" /\ HasPython(fs) => \A p \in DOMAIN Probes : FindsJS(fs, p) = FindsPy(AsPython(fs), p)
MeaningToJS == kind # "js" /\ HasJS(fs) => \A p \in DOMAIN Probes : FindsPy(fs, p) = FindsJS(FromPython(fs), p)
\* a str pattern comes back with the flags it had; ASCII matching is not a JavaScript flag
BackToPython == kind = "str" /\ PyLegal(kind, fs) /\ HasJS(fs) /\ "A" \notin fs
                => AsPython(FromPython(PyCompiled(kind, fs))) = PyCompiled(kind, fs)
AlwaysValid == kind # "js" => Valid(FromPython(fs))
================================================================================
