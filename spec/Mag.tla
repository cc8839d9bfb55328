-------------------------------- MODULE Mag --------------------------------
(***************************************************************************)
(* Natural numbers of any size as little-endian byte sequences without a   *)
(* trailing zero byte (0 is << >>).  TLC's integers are 32-bit, the V8     *)
(* format's are not (uint32 lengths, 64-bit doubles, BigInts).             *)
(***************************************************************************)
EXTENDS Integers, Sequences

RECURSIVE Trim(_)
Trim(s) == IF s # <<>> /\ s[Len(s)] = 0 THEN Trim(SubSeq(s, 1, Len(s) - 1)) ELSE s

RECURSIVE NatMag(_)
NatMag(n) == IF n = 0 THEN <<>> ELSE <<n % 256>> \o NatMag(n \div 256)

BigNat == 1000000000      \* "larger than any stream": saturation value of MagNat

\* Exact up to three bytes, saturates above.
MagNat(m) ==
  CASE Len(m) = 0 -> 0
    [] Len(m) = 1 -> m[1]
    [] Len(m) = 2 -> m[1] + 256 * m[2]
    [] Len(m) = 3 -> m[1] + 256 * m[2] + 65536 * m[3]
    [] OTHER -> BigNat

RECURSIVE MulAddFrom(_, _, _, _, _)
MulAddFrom(m, k, carry, i, out) ==
  IF i > Len(m) THEN out \o NatMag(carry)
  ELSE LET x == m[i] * k + carry
       IN MulAddFrom(m, k, x \div 256, i + 1, Append(out, x % 256))
\* m * k + a      (k <= 65536, a < 2^24)
MulAdd(m, k, a) == Trim(MulAddFrom(m, k, a, 1, <<>>))

AddNat(m, a) == MulAdd(m, 1, a)

RECURSIVE DivFrom(_, _, _, _, _)
DivFrom(m, k, rem, i, out) ==
  IF i = 0 THEN [q |-> Trim(out), r |-> rem]
  ELSE LET x == rem * 256 + m[i]
       IN DivFrom(m, k, x % k, i - 1, <<x \div k>> \o out)
DivMod(m, k) == DivFrom(m, k, 0, Len(m), <<>>)

RECURSIVE CmpFrom(_, _, _)
CmpFrom(a, b, i) ==
  IF i = 0 THEN 0
  ELSE IF a[i] < b[i] THEN -1 ELSE IF a[i] > b[i] THEN 1 ELSE CmpFrom(a, b, i - 1)
\* -1, 0 or 1
MagCmp(a, b) ==
  IF Len(a) < Len(b) THEN -1 ELSE IF Len(a) > Len(b) THEN 1 ELSE CmpFrom(a, b, Len(a))
MagMax(a, b) == IF MagCmp(a, b) >= 0 THEN a ELSE b

\* Decimal digits as code points, most significant first.
RECURSIVE DecFrom(_, _)
DecFrom(m, out) ==
  IF m = <<>> THEN out
  ELSE LET d == DivMod(m, 10) IN DecFrom(d.q, <<48 + d.r>> \o out)
MagDecimal(m) == IF m = <<>> THEN <<48>> ELSE DecFrom(m, <<>>)

RECURSIVE ParseDecFrom(_, _, _)
ParseDecFrom(cps, i, m) ==
  IF i > Len(cps) THEN m ELSE ParseDecFrom(cps, i + 1, MulAdd(m, 10, cps[i] - 48))
\* The value of a sequence of ASCII decimal digits.
ParseDec(cps) == ParseDecFrom(cps, 1, <<>>)

\* 2^32 - 2, the largest array index, and 2^32 - 1, the largest array length.
MaxIndex  == <<254, 255, 255, 255>>
MaxLength == <<255, 255, 255, 255>>

Zeros(n) == [i \in 1..n |-> 0]
Pow2(n) == 2 ^ n          \* n < 31
\* m * 2^n
ShiftLeft(m, n) ==
  IF m = <<>> THEN m ELSE Zeros(n \div 8) \o MulAdd(m, Pow2(n % 8), 0)

RECURSIVE TrailZeroBits(_, _)
TrailZeroBits(m, n) ==
  IF m[1] = 0 THEN TrailZeroBits(Tail(m), n + 8)
  ELSE IF m[1] % 2 = 0 THEN TrailZeroBits(DivMod(m, 2).q, n + 1) ELSE n
\* m / 2^n, exact
ShiftRight(m, n) == DivMod(SubSeq(m, 1 + (n \div 8), Len(m)), Pow2(n % 8)).q

(***************************************************************************)
(* IEEE-754 binary64, little-endian bytes.                                 *)
(***************************************************************************)
DExp(b)  == (b[8] % 128) * 16 + (b[7] \div 16)
DNeg(b)  == IF b[8] >= 128 THEN 1 ELSE 0
DFrac(b) == Trim(<<b[1], b[2], b[3], b[4], b[5], b[6], b[7] % 16>>)
DNaN(b)  == DExp(b) = 2047 /\ DFrac(b) # <<>>
DInf(b)  == DExp(b) = 2047 /\ DFrac(b) = <<>>
DFinite(b) == DExp(b) # 2047
CanonNaN == <<0, 0, 0, 0, 0, 0, 248, 127>>
CanonDouble(b) == IF DNaN(b) THEN CanonNaN ELSE b

\* [int |-> is it an integer, neg |-> sign, m |-> magnitude]; -0.0 is the integer 0.
DInteger(b) ==
  LET e == DExp(b)
      f == DFrac(b)
      full == Trim(<<b[1], b[2], b[3], b[4], b[5], b[6], (b[7] % 16) + 16>>)
      sh == e - 1075
      no == [int |-> FALSE, neg |-> 0, m |-> <<>>]
  IN IF e = 2047 THEN no
     ELSE IF e = 0 THEN (IF f = <<>> THEN [int |-> TRUE, neg |-> 0, m |-> <<>>] ELSE no)
     ELSE IF sh >= 0 THEN [int |-> TRUE, neg |-> DNeg(b), m |-> ShiftLeft(full, sh)]
     ELSE IF sh < -52 THEN no
     ELSE IF TrailZeroBits(full, 0) >= -sh
          THEN [int |-> TRUE, neg |-> DNeg(b), m |-> ShiftRight(full, -sh)]
          ELSE no
=============================================================================
