-------------------------------- MODULE DateTime -------------------------------
(***************************************************************************)
(* Dates: an instant is <<days, ms>>, days since 1970-01-01 UTC and the    *)
(* milliseconds of that day; a civil time is [y, mo, d, ms] of the         *)
(* proleptic Gregorian calendar; an offset is local time minus UTC in      *)
(* milliseconds.  A date in a stream is a double: milliseconds since 1970. *)
(***************************************************************************)
EXTENDS Mag, TLC

DayMs == 86400000

Leap(y) == (y % 4 = 0 /\ y % 100 # 0) \/ y % 400 = 0
MonthLen(y, m) == CASE m \in {4, 6, 9, 11} -> 30
                    [] m = 2 -> IF Leap(y) THEN 29 ELSE 28
                    [] OTHER -> 31
\* Days before year y, counted from year 0
BeforeYear(y) == IF y = 0 THEN 0
                 ELSE LET z == y - 1 IN 366 + z * 365 + z \div 4 - z \div 100 + z \div 400
RECURSIVE BeforeMonth(_, _)
BeforeMonth(y, m) == IF m = 1 THEN 0 ELSE BeforeMonth(y, m - 1) + MonthLen(y, m - 1)
Epoch == BeforeYear(1970)
DaysOf(y, m, d) == BeforeYear(y) + BeforeMonth(y, m) + d - 1 - Epoch

\* Inverse: the year is next to the one of average length, then the month
YearOf(n) ==      \* n days since year 0, n >= 0
  LET guess == (n * 400) \div 146097
  IN CHOOSE y \in {guess - 1, guess, guess + 1} :
       y >= 0 /\ BeforeYear(y) <= n /\ n < BeforeYear(y + 1)
Civil(days) ==
  LET n == days + Epoch
      y == YearOf(n)
      k == n - BeforeYear(y)
      m == CHOOSE q \in 1..12 : BeforeMonth(y, q) <= k /\ k < BeforeMonth(y, q) + MonthLen(y, q)
  IN [y |-> y, mo |-> m, d |-> k - BeforeMonth(y, m) + 1]

MinDay == DaysOf(1, 1, 1)
MaxDay == DaysOf(9999, 12, 31)
InRange(days) == days >= MinDay /\ days <= MaxDay

\* instant + ms (|ms| < 2 days)
Shift(t, ms) ==
  LET x == t[2] + ms
      k == IF x < 0 THEN -((-x + DayMs - 1) \div DayMs) ELSE x \div DayMs
  IN <<t[1] + k, x - k * DayMs>>

\* The civil time at an instant, with an offset; expressible in years 1 to 9999
LocalOf(t, off) == LET l == Shift(t, off)
                   IN [ok |-> InRange(l[1]),
                       f |-> IF InRange(l[1]) THEN [c |-> Civil(l[1]), ms |-> l[2]] ELSE [ms |-> l[2]]]
InstantOf(c, ms, off) == Shift(<<DaysOf(c.y, c.mo, c.d), ms>>, -off)

\* The time value as sign and magnitude
TimeValue(t) ==
  LET big(n, a) == MulAdd(MulAdd(NatMag(n), 43200, 0), 2000, a)
  IN IF t[1] >= 0 THEN [neg |-> 0, m |-> big(t[1], t[2])]
     ELSE [neg |-> 1, m |-> big(-t[1] - 1, DayMs - t[2])]

\* ... and back, for magnitudes below 2^53
OfTimeValue(neg, m) ==
  LET q == DivMod(m, 1000)              \* seconds, and ms
      r == DivMod(q.q, 60)              \* minutes
      h == DivMod(r.q, 1440)            \* days
      ms == h.r * 60000 + r.r * 1000 + q.r
      n == MagNat(h.q)
  IN IF Len(h.q) > 3 THEN [ok |-> FALSE]
     ELSE IF neg = 0 THEN [ok |-> TRUE, t |-> <<n, ms>>]
     ELSE IF ms = 0 THEN [ok |-> TRUE, t |-> <<-n, 0>>]
     ELSE [ok |-> TRUE, t |-> <<-n - 1, DayMs - ms>>]

RECURSIVE BitsOf(_)
BitsOf(n) == IF n = 0 THEN 0 ELSE 1 + BitsOf(n \div 2)
BitLen(m) == 8 * (Len(m) - 1) + BitsOf(m[Len(m)])
\* The double of an integer below 2^53
DoubleOf(neg, m) ==
  IF m = <<>> THEN <<0, 0, 0, 0, 0, 0, 0, 0>>
  ELSE LET bl == BitLen(m)
           full == ShiftLeft(m, 53 - bl)
           e == 1023 + bl - 1
       IN <<full[1], full[2], full[3], full[4], full[5], full[6],
            (full[7] % 16) + 16 * (e % 16), (e \div 16) + 128 * neg>>
BytesOf(t) == LET v == TimeValue(t) IN DoubleOf(v.neg, v.m)

\* What reading a stored time value gives: its instant, or a refusal
ReadTime(b) ==
  IF ~DFinite(b) \/ DExp(b) >= 1076 THEN [ok |-> FALSE]
  ELSE LET i == DInteger(b)
       IN IF ~i.int THEN [ok |-> FALSE] ELSE OfTimeValue(i.neg, i.m)

\* Python converts through UTC: local times whose UTC time is not in years 1 to
\* 9999 may be refused (and naive local times on the first day).
Doubtful(t) == ~InRange(t[1])
================================================================================
