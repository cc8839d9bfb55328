-------------------------------- MODULE RegExp ---------------------------------
(* RegExp flags: JavaScript's, V8's numbers for them, and Python's.           *)
EXTENDS Integers, Sequences, FiniteSets, TLC

\* JavaScript's flags in the order of the text form, with V8's bit
Order == <<"d", "g", "i", "l", "m", "s", "u", "v", "y">>
Bit == [d |-> 128, g |-> 1, i |-> 2, l |-> 64, m |-> 4, s |-> 32, u |-> 16, v |-> 256, y |-> 8]
JS == DOMAIN Bit

RECURSIVE Sum(_)
Sum(F) == IF F = {} THEN 0 ELSE LET f == CHOOSE x \in F : TRUE IN Bit[f] + Sum(F \ {f})
Num(F) == Sum(F)
FromNum(n) == {f \in JS : (n \div Bit[f]) % 2 = 1}
Text(F) == SelectSeq(Order, LAMBDA f : f \in F)
\* bits above the nine flags have no meaning
Canonical(n) == n % 512

\* u and v read the source in incompatible ways
Valid(F) == ~({"u", "v"} \subseteq F)

\* Python's: A(SCII) I(GNORECASE) L(OCALE) M(ULTILINE) S (DOTALL) U(NICODE) X (VERBOSE)
\* d, g and y concern only JavaScript's matching calls; l has no equivalent.
HasPython(F) == "l" \notin F
AsPython(F) == (IF "i" \in F THEN {"I"} ELSE {}) \cup (IF "m" \in F THEN {"M"} ELSE {})
          \cup (IF "s" \in F THEN {"S"} ELSE {}) \cup (IF F \cap {"u", "v"} # {} THEN {"U"} ELSE {})
HasJS(P) == "X" \notin P
FromPython(P) == (IF "I" \in P THEN {"i"} ELSE {}) \cup (IF "M" \in P THEN {"m"} ELSE {})
            \cup (IF "S" \in P THEN {"s"} ELSE {}) \cup (IF "U" \in P THEN {"v"} ELSE {})
\* the flags a compiled Python pattern has, from those it is compiled with
PyLegal(kind, P) == IF kind = "str" THEN "L" \notin P /\ ~({"A", "U"} \subseteq P)
                    ELSE "U" \notin P /\ ~({"A", "L"} \subseteq P)
PyCompiled(kind, P) == IF kind = "str" /\ "A" \notin P THEN P \cup {"U"} ELSE P

\* what the flags mean: does a pattern with these flags find a match?
\* probes: <<source, text>>
Probes == [case |-> <<"aB", "Ab">>, dot |-> <<"a.b", "a\nb">>, line |-> <<"^b", "a\nb">>, same |-> <<"a.b", "axb">>,
           space |-> <<"a b", "a b">>, end |-> <<"a$", "a\nb">>, none |-> <<"c", "C">>]
Finds(p, i, m, s) == CASE p \in {"case", "none"} -> i [] p = "dot" -> s [] p \in {"line", "end"} -> m [] OTHER -> TRUE
FindsJS(F, p) == Finds(p, "i" \in F, "m" \in F, "s" \in F)
FindsPy(P, p) == Finds(p, "I" \in P, "M" \in P, "S" \in P)
================================================================================
