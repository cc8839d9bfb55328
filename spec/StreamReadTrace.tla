---------------------------- MODULE StreamReadTrace ----------------------------
(* Recorded sequences of read calls against Stream.                           *)
EXTENDS Stream, HistTrace
Apply(q, op) == LET a == Read(q, op)
                IN [s |-> [pos |-> a.s.pos, n |-> a.s.n, ver |-> a.s.ver, b |-> q.b],
                    r |-> [st |-> a.r, v |-> a.v], amb |-> a.amb]
================================================================================
