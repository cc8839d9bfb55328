--------------------------------- MODULE Steps ---------------------------------
(* The pipelines of encode steps and of decode steps.                         *)
(*                                                                            *)
(* A step is a sequence <<kind, args...>>.  A run records in log the calls    *)
(* <<step, value>> in their order, and its result in out: a flat sequence of  *)
(* tokens, where "^k" is a reference to the k-th container that was begun.    *)
(* fuel bounds the nesting; what is nested deeper counts as endless.         *)
EXTENDS Integers, Sequences, FiniteSets, TLC

----------------------------------------------------------------------------
(* Values to encode, by name.  x, y: objects the writer does not know.       *)
Leaf == {"p", "q", "n", "x", "y"}
Known == {"p", "q", "n"}
Kids == [E |-> <<"[">>, L |-> <<"[", "p", "x">>, M |-> <<"[", "x", "L", "y">>, T |-> <<"[", "L", "L">>,
         C |-> <<"[", "C", "p">>, O |-> <<"{", "x", "p">>, P |-> <<"{", "p", "L">>, N |-> <<"{", "n", "x">>,
         Q |-> <<"{", "q", "O">>, K |-> <<"{", "L", "p">>,
         R |-> <<"[", "S", "L", "L">>, S |-> <<"{", "L", "L">>]
Values == Leaf \cup DOMAIN Kids

\* only strings and numbers can be the keys of properties
LegalKey(t) == t \in {"p", "q", "H", "C!"}
\* st: [log, out, seen, err, ev, cut];  cut: begun containers were dropped, the numbers of others are too high
Put(st, t, key) == IF key /\ ~LegalKey(t) THEN [st EXCEPT !.err = "key"] ELSE [st EXCEPT !.out = Append(@, t)]
Ref(k) == "^" \o ToString(k)
Index(s, v) == IF \E k \in 1..Len(s) : s[k] = v THEN CHOOSE k \in 1..Len(s) : s[k] = v /\ \A j \in (k+1)..Len(s) : s[j] # v
               ELSE 0

RECURSIVE Enc(_, _, _, _, _, _)
RECURSIVE EncAll(_, _, _, _, _)
\* offer v to the steps from i on; key: v is written as the key of a property
Enc(S, v, i, key, st0, fuel) ==
    IF st0.err # "" THEN st0
    ELSE IF fuel = 0 THEN [st0 EXCEPT !.err = "endless"]
    ELSE IF i > Len(S) THEN [st0 EXCEPT !.err = "unhandled", !.ev = v]
    ELSE LET s == S[i]
             st == [st0 EXCEPT !.log = Append(@, <<i, v>>)]
             mine == Len(s) = 1 \/ s[2] = v
             Next(w, z) == Enc(S, w, i + 1, key, z, fuel)
         IN CASE ~mine -> Next(v, st)
              [] s[1] = "pass" -> Next(v, st)
              [] s[1] = "replace" -> Next(s[3], st)
              [] s[1] = "restart" -> Enc(S, s[3], 1, key, st, fuel - 1)     \* ctx.encode_object
              [] s[1] = "handle" -> Put(st, "H", key)
              [] s[1] = "refuse" -> [st EXCEPT !.err = "custom"]
              [] s[1] = "pair" -> \* writes an array of what the following steps make of p and q
                    LET a == Put([st EXCEPT !.seen = IF key THEN @ ELSE Append(@, "pair")], "[", key)
                        b == Next("q", Next("p", a))
                    IN IF b.err # "" THEN b ELSE Put(b, "]", FALSE)
              [] s[1] = "catch" ->
                    LET a == Next(v, st)
                    IN IF a.err = "unhandled" /\ a.out = st.out /\ a.seen = st.seen
                       THEN Put([a EXCEPT !.err = "", !.ev = ""], "C!", key) ELSE a
              [] s[1] = "retry" -> \* another key for what cannot be one
                    LET a == Next(v, st)
                    IN IF a.err = "key" /\ a.out = st.out /\ a.seen = st.seen
                       THEN Next("p", [a EXCEPT !.err = ""]) ELSE a
              [] s[1] = "rescue" -> \* something else for what cannot be written, what was written of it is dropped
                    LET a == Next(v, st)
                    IN IF a.err \in {"key", "unhandled"}
                       THEN Put([a EXCEPT !.err = "", !.ev = "", !.out = st.out, !.cut = @ \/ a.seen # st.seen], "C!", key) ELSE a
              [] s[1] = "refs" -> LET k == Index(st.seen, v)
                                  IN IF k > 0 THEN Put(st, Ref(k), key) ELSE Next(v, st)
              [] s[1] = "writer" ->
                    IF v \in Known THEN Put(st, v, key)
                    ELSE IF v \in Leaf THEN Next(v, st)
                    ELSE LET b == Put([st EXCEPT !.seen = IF key THEN @ ELSE Append(@, v)], Kids[v][1], key)
                         IN IF b.err # "" THEN b
                            ELSE LET e == EncAll(S, v, 2, b, fuel - 1)
                                 IN IF e.err # "" THEN e ELSE Put(e, IF Kids[v][1] = "[" THEN "]" ELSE "}", FALSE)
\* the contents start again at the first step
EncAll(S, v, n, st, fuel) ==
    IF n > Len(Kids[v]) THEN st
    ELSE EncAll(S, v, n + 1, Enc(S, Kids[v][n], 1, Kids[v][1] = "{" /\ n % 2 = 0, st, fuel), fuel)

Encode(S, v) == Enc(S, v, 1, FALSE, [log |-> <<>>, out |-> <<>>, seen |-> <<>>, err |-> "", ev |-> "", cut |-> FALSE], 7)

----------------------------------------------------------------------------
(* Streams to decode: sequences of tags.  u: a tag the reader does not know. *)
Streams == { <<"z">>, <<"s">>, <<"u">>, <<"[", "z", "t", "]">>, <<"[", "u", "s", "]">>,
             <<"[", "[", "z", "]", "^2", "t", "^1", "]">>, <<"{", "s", "t", "}">>,
             <<"{", "s", "[", "u", "z", "^1", "]", "}">>, <<"[", "t", "{", "s", "z", "}", "^2", "]">> }
\* st: [pos, log, n, err, et];  the result is [st, v]
RECURSIVE Dec(_, _, _, _, _, _)
RECURSIVE DecAll(_, _, _, _, _)
Res(st, v) == [st |-> st, v |-> v]
Dec(S, B, t, i, st0, fuel) ==
    IF st0.err # "" THEN Res(st0, <<>>)
    ELSE IF fuel = 0 THEN Res([st0 EXCEPT !.err = "endless"], <<>>)
    ELSE IF i > Len(S) THEN Res([st0 EXCEPT !.err = "unhandled", !.et = t], <<>>)
    ELSE LET s == S[i]
             st == [st0 EXCEPT !.log = Append(@, <<i, t>>)]
             mine == Len(s) = 1 \/ s[2] = t \/ (s[2] = "^" /\ t \in {"^1", "^2"})
             Next(w, z) == Dec(S, B, w, i + 1, z, fuel)
         IN CASE ~mine -> Next(t, st)
              [] s[1] = "pass" -> Next(t, st)
              [] s[1] = "wrap" -> LET a == Next(t, st) IN IF a.st.err # "" THEN a ELSE Res(a.st, <<"w(">> \o a.v \o <<")">>)
              [] s[1] = "retag" -> Next(s[3], st)
              [] s[1] = "restart" -> Dec(S, B, s[3], 1, st, fuel - 1)       \* ctx.decode_object(tag=)
              [] s[1] = "handle" -> Res(st, <<"H">>)
              [] s[1] = "refuse" -> Res([st EXCEPT !.err = "custom"], <<>>)
              [] s[1] = "catch" -> LET a == Next(t, st)
                                   IN IF a.st.err = "unhandled" /\ a.st.pos = st.pos
                                      THEN Res([a.st EXCEPT !.err = "", !.et = ""], <<"C!">>) ELSE a
              [] s[1] = "reader" ->
                    IF t \in {"z", "t", "f", "s"} THEN Res(st, <<t>>)
                    ELSE IF t = "u" THEN Next(t, st)
                    ELSE IF t \in {"^1", "^2"} THEN Res(st, <<t>>)
                    ELSE DecAll(S, B, [st EXCEPT !.n = @ + 1], <<t>>, fuel - 1)
DecAll(S, B, st, v, fuel) ==
    IF st.err # "" THEN Res(st, <<>>)
    ELSE LET t == B[st.pos]  a == Dec(S, B, t, 1, [st EXCEPT !.pos = @ + 1], fuel)
         IN IF t \in {"]", "}"} THEN Res([st EXCEPT !.pos = @ + 1], Append(v, t))
            ELSE DecAll(S, B, a.st, v \o a.v, fuel)

Decode(S, B) == Dec(S, B, B[1], 1, [pos |-> 2, log |-> <<>>, n |-> 0, err |-> "", et |-> ""], 7)
================================================================================
