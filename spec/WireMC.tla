-------------------------------- MODULE WireMC --------------------------------
(* Every stream of up to Max chunks over an alphabet.                         *)
(*                                                                            *)
(* A chunk is a sequence of bytes: an item of the format, or a piece of one.  *)
(* A stream is extended as long as the machine lacks data, or, at the top     *)
(* level, could read on.  Each stream is printed with what it denotes; or,    *)
(* each is completed by what closes its containers, and printed then.         *)
EXTENDS V8Wire, Json, IOUtils
CONSTANTS Max, Finish     \* Finish: print the completed streams
A == ndJsonDeserialize(IOEnv.KEYS)[1]       \* [chunks, vers]
VARIABLES b, n, r

O == [mode |-> "py", strict |-> FALSE, host |-> TRUE, flat |-> FALSE]
OStrict == [O EXCEPT !.strict = TRUE]
RECURSIVE Run(_, _, _)
Run(x, o, st) == IF st.status \in {"hdr", "run"} THEN Run(x, o, StepAs(StepKind(x, st), x, o, st)) ELSE st

\* more bytes could make something of it
Hungry(st) == st.status = "bad" /\ st.why \in {"truncated", "array longer than the data", "bad error end", "bad error tag",
    "bad error message", "bad error stack", "bad string", "truncated double", "truncated date",
    "truncated count", "bad int32", "bad uint32", "bad bigint", "bad regexp source", "truncated regexp flags",
    "truncated array length", "bad buffer length", "buffer longer than the data", "truncated reference", "bad view"}

\* what the innermost container lacks: its end, or a value first
Small(m) == IF Len(m) = 1 /\ m[1] < 128 THEN m ELSE <<0>>
AtEnd(st) == st.stack # <<>> /\ Top(st).f \in {"props", "map", "set"} /\ (Top(st).f # "set" => Top(st).key = <<>>)
Filler(st) ==
    IF st.stack = <<>> \/ Top(st).f \in {"elems", "cause"} THEN <<48>>
    ELSE LET f == Top(st) IN
         CASE f.f = "errend" -> <<46>>
           [] ~AtEnd(st) -> <<48>>
           [] f.f = "map" -> <<58, f.cnt>>
           [] f.f = "set" -> <<44, f.cnt>>
           [] OTHER -> <<EndOf(f.kind), f.cnt>> \o (IF f.kind = "o" THEN <<>> ELSE Small(f.len))
\* x with everything that is open closed
RECURSIVE Finished(_, _)
Finished(x, fuel) == LET st == Run(x, O, Start)
                     IN IF st.status = "ok" \/ fuel = 0 \/ ~Hungry(st) THEN [b |-> x, st |-> st]
                        ELSE Finished(x \o Filler(st), fuel - 1)

Show(x, st) == PrintT("T " \o ToJson([b |-> x, s |-> st.status, a |-> st.amb,
                                      c |-> IF st.status = "ok" THEN Canon(O, st) ELSE <<>>]))
Init == /\ \E v \in 1..Len(A.vers) : b = <<255, A.vers[v]>>
        /\ n = 0 /\ r = Run(b, O, Start)
Next == /\ n < Max /\ Hungry(r)
        /\ \/ \E k \in 1..Len(A.chunks) : b' = b \o A.chunks[k]
           \/ Finish /\ AtEnd(r) /\ b' = b \o Filler(r)
        /\ n' = n + 1 /\ r' = Run(b', O, Start)
        /\ IF Finish THEN LET f == Finished(b', 12) IN f.st.status = "ok" => Show(f.b, f.st) ELSE Show(b', r')
Spec == Init /\ [][Next]_<<b, n, r>>

\* what the strict machine (V8 itself) reads, the tolerant one reads, as the same value
StrictAgrees == LET s == Run(b, OStrict, Start) IN
    s.status = "ok" => r.status = "ok" /\ (r.amb \/ Canon(O, s) = Canon(O, r)) /\ s.pos = r.pos
\* a well-formed stream stays one, whatever follows (but a buffer can still become a view)
Settled == r.status = "ok" /\ ~(IsRef(r.root) /\ r.heap[r.root[2]].kind \in {"buf", "sab", "xfer"}) =>
    \A k \in {1, Len(A.chunks)} : LET s == Run(b \o A.chunks[k], O, Start) IN s.status = "ok" /\ Canon(O, s) = Canon(O, r)
IdsResolve == \A i \in 1..Len(r.ids) : IsRef(r.ids[i]) => r.ids[i][2] \in 1..Len(r.heap)
DoneIsEmpty == r.status = "ok" => r.stack = <<>> /\ r.root # <<>> /\ r.pos <= Len(b) + 1
Bounded == Len(r.ids) <= Len(b) /\ Len(r.heap) <= 2 * Len(b)
================================================================================
