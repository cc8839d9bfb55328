------------------------------ MODULE DateTimeMC -------------------------------
(* All instants of chosen days and times of day, in chosen offsets; the      *)
(* calendar's own laws on a range of days.                                   *)
EXTENDS DateTime, Json, IOUtils
CONSTANT Stride
K == ndJsonDeserialize(IOEnv.KEYS)[1]
Days == {K.days[i] : i \in 1..Len(K.days)}
Times == {K.times[i] : i \in 1..Len(K.times)}
Offs == {K.offs[i] : i \in 1..Len(K.offs)}
VARIABLES t, off, done
vars == <<t, off, done>>
Init == /\ done = FALSE
        /\ \/ (t \in Days \X Times /\ off \in Offs)
           \* plain days, for the laws only
           \/ (t \in {<<MinDay + Stride * k, 0>> : k \in 0..((MaxDay - MinDay) \div Stride)} /\ off = 0)
Rec == LET l == LocalOf(t, off)
       IN [t |-> t, off |-> off, b |-> BytesOf(t), ok |-> l.ok, f |-> l.f, doubt |-> Doubtful(t)]
Next == /\ ~done /\ done' = TRUE /\ UNCHANGED <<t, off>>
        /\ IF t[1] \in Days /\ t[2] \in Times THEN PrintT("T " \o ToJson(Rec)) ELSE TRUE
Spec == Init /\ [][Next]_vars

CivilInverse == InRange(t[1]) => LET c == Civil(t[1]) IN
  DaysOf(c.y, c.mo, c.d) = t[1] /\ c.mo \in 1..12 /\ c.d \in 1..MonthLen(c.y, c.mo)
NextDay == (InRange(t[1]) /\ InRange(t[1] + 1)) =>
  LET a == Civil(t[1]) b == Civil(t[1] + 1)
  IN \/ b = [a EXCEPT !.d = @ + 1]
     \/ (b.d = 1 /\ a.d = MonthLen(a.y, a.mo) /\
         (IF a.mo = 12 THEN b.mo = 1 /\ b.y = a.y + 1 ELSE b.mo = a.mo + 1 /\ b.y = a.y))
LocalInverse == LET l == LocalOf(t, off) IN l.ok => InstantOf(l.f.c, l.f.ms, off) = t
ValueInverse == LET v == TimeValue(t) IN OfTimeValue(v.neg, v.m) = [ok |-> TRUE, t |-> t]
BytesInverse == off = 0 => ReadTime(BytesOf(t)) = [ok |-> TRUE, t |-> t]
================================================================================
