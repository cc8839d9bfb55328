----------------------------- MODULE DateTimeTrace -----------------------------
(* Recorded conversions of dates against DateTime.                           *)
EXTENDS DateTime, HistTrace
\* op: ["write", y, mo, d, ms, off]                  -> <<the bytes>>
\*     ["read", bytes, off]  (off: of that instant)  -> <<y, mo, d, ms>> or <<"refused">>
\*     ["trip", y, mo, d, ms, us, off, off2]          -> <<y, mo, d, ms, us>>
\*         written at one offset and read at another; us: microseconds of the ms
\*     ["read", bytes, <<>>] for values that no date has
Apply(s, op) ==
  [s |-> s,
   r |-> CASE op[1] = "write" ->
                BytesOf(InstantOf([y |-> op[2], mo |-> op[3], d |-> op[4]], op[5], op[6]))
           [] op[1] = "trip" ->
                LET t == InstantOf([y |-> op[2], mo |-> op[3], d |-> op[4]], op[5], op[7])
                    l == LocalOf(t, op[8])
                IN <<l.f.c.y, l.f.c.mo, l.f.c.d, l.f.ms, op[6]>>
           [] op[1] = "read" ->
                LET x == ReadTime(op[2])
                IN IF ~x.ok \/ op[3] = <<>> THEN <<"refused">>
                   ELSE LET l == LocalOf(x.t, op[3][1])
                        IN IF l.ok THEN <<l.f.c.y, l.f.c.mo, l.f.c.d, l.f.ms>> ELSE <<"refused">>]
================================================================================
