------------------------------- MODULE DataView -------------------------------
(***************************************************************************)
(* Typed reads and writes of the bytes of a buffer through a DataView (any *)
(* offset, either byte order) or a typed array (aligned elements, little   *)
(* endian).                                                                *)
(*                                                                         *)
(* State: data  all bytes of the buffer;  lo, len  the view's region       *)
(* Values are number tokens: <<73, neg, n, magnitude>> for integers and    *)
(* <<78, binary64>> for floats.                                            *)
(***************************************************************************)
EXTENDS Mag, TLC

Rs(s, r) == [s |-> s, r |-> r]
Rev(b) == [i \in 1..Len(b) |-> b[Len(b) + 1 - i]]
Size(t) == CASE t \in {"int8", "uint8"} -> 1
             [] t \in {"int16", "uint16", "float16"} -> 2
             [] t \in {"int32", "uint32", "float32"} -> 4
             [] OTHER -> 8
IsFloat(t) == t \in {"float16", "float32", "float64"}
Signed(t) == t \in {"int8", "int16", "int32", "bigint64"}
Types == {"int8", "uint8", "int16", "uint16", "int32", "uint32", "bigint64", "biguint64",
          "float16", "float32", "float64"}

(* Integers: two's complement, least significant byte first *)
Pad(m, n) == m \o Zeros(n - Len(m))
RECURSIVE Inc(_, _)
Inc(b, i) == IF i > Len(b) THEN b
             ELSE IF b[i] = 255 THEN Inc([b EXCEPT ![i] = 0], i + 1)
             ELSE [b EXCEPT ![i] = @ + 1]
Negated(b) == Inc([i \in 1..Len(b) |-> 255 - b[i]], 1)
TopBit(n) == Zeros(n - 1) \o <<128>>
IntFits(t, v) ==
  LET n == Size(t)
      m == SubSeq(v, 4, Len(v))
  IN /\ v[1] = 73
     /\ IF ~Signed(t) THEN v[2] = 0 /\ Len(m) <= n
        ELSE \/ MagCmp(m, TopBit(n)) < 0
             \/ v[2] = 1 /\ m = TopBit(n)
IntBytes(t, v) == LET p == Pad(SubSeq(v, 4, Len(v)), Size(t))
                  IN IF v[2] = 1 THEN Negated(p) ELSE p
IntVal(t, b) == LET neg == Signed(t) /\ b[Len(b)] >= 128
                    m == Trim(IF neg THEN Negated(b) ELSE b)
                IN <<73, IF neg THEN 1 ELSE 0, Len(m)>> \o m

(* Floats: p mantissa bits, exponent bias, exponent of infinity *)
P(t) == IF t = "float16" THEN 10 ELSE 23
Bias(t) == IF t = "float16" THEN 15 ELSE 127
MaxE(t) == IF t = "float16" THEN 31 ELSE 255
\* the 52 mantissa bits of a binary64 as 23 + 29
MantHi(b) == (b[7] % 16) * Pow2(19) + b[6] * Pow2(11) + b[5] * 8 + b[4] \div 32
MantLo(b) == (b[4] % 32) * Pow2(24) + b[3] * Pow2(16) + b[2] * 256 + b[1]
\* binary64 to a narrower format, to nearest, ties to even: [ok, bits, neg]
Narrow(t, b) ==
  LET p == P(t)
      e == DExp(b) - 1023 + Bias(t)
      d == (23 - p) + (IF e >= 1 THEN 0 ELSE 1 - e)
      full == Pow2(23) + MantHi(b)
      q == IF d > 25 THEN 0 ELSE full \div Pow2(d)
      r == IF d > 25 THEN 0 ELSE full % Pow2(d)
      guard == IF d > 25 THEN FALSE ELSE IF d = 0 THEN MantLo(b) >= Pow2(28) ELSE r >= Pow2(d - 1)
      sticky == IF d > 25 THEN FALSE ELSE IF d = 0 THEN MantLo(b) % Pow2(28) # 0
                ELSE r % Pow2(d - 1) # 0 \/ MantLo(b) # 0
      up == IF guard /\ (sticky \/ q % 2 = 1) THEN q + 1 ELSE q
      inf == MaxE(t) * Pow2(p)
      bits == IF DExp(b) = 0 THEN 0
              ELSE IF e >= MaxE(t) THEN inf
              ELSE IF e >= 1 THEN (e - 1) * Pow2(p) + up ELSE up
  IN IF DNaN(b) THEN [ok |-> TRUE, bits |-> inf + Pow2(p - 1), neg |-> 0]
     ELSE IF DInf(b) THEN [ok |-> TRUE, bits |-> inf, neg |-> DNeg(b)]
     ELSE [ok |-> bits < inf, bits |-> bits, neg |-> DNeg(b)]
FloatFits(t, v) == v[1] = 78 /\ (t = "float64" \/ Narrow(t, Tail(v)).ok)
RECURSIVE BitBytes(_, _)
BitBytes(x, n) == IF n = 0 THEN <<>> ELSE <<x % 256>> \o BitBytes(x \div 256, n - 1)
FloatBytes(t, v) ==
  IF t = "float64" THEN Tail(v)
  ELSE LET n == Narrow(t, Tail(v))
           b == BitBytes(n.bits, Size(t))
       IN [b EXCEPT ![Len(b)] = @ + 128 * n.neg]
RECURSIVE LogTwo(_)
LogTwo(m) == IF m = 1 THEN 0 ELSE 1 + LogTwo(m \div 2)
Wide(neg, e, hi) == <<0, 0, 0, (hi % 8) * 32, (hi \div 8) % 256, (hi \div Pow2(11)) % 256,
                      (e % 16) * 16 + hi \div Pow2(19), neg * 128 + e \div 16>>
FloatVal(t, b) ==
  IF t = "float64" THEN <<78>> \o CanonDouble(b)
  ELSE
  LET n == Len(b)
      p == P(t)
      neg == IF b[n] >= 128 THEN 1 ELSE 0
      bits == MagNat(Trim(SubSeq(b, 1, n - 1))) + (b[n] % 128) * Pow2(8 * (n - 1))
      e == bits \div Pow2(p)
      m == bits % Pow2(p)
      k == LogTwo(m)
  IN <<78>> \o
     (IF e = MaxE(t) THEN IF m # 0 THEN CanonNaN ELSE Wide(neg, 2047, 0)
      ELSE IF e = 0 /\ m = 0 THEN Wide(neg, 0, 0)
      ELSE IF e = 0 THEN Wide(neg, k + 1 - Bias(t) - p + 1023, (m - Pow2(k)) * Pow2(23 - k))
      ELSE Wide(neg, e - Bias(t) + 1023, m * Pow2(23 - p)))

Fits(t, v) == IF IsFloat(t) THEN FloatFits(t, v) ELSE IntFits(t, v)
ToBytes(t, v) == IF IsFloat(t) THEN FloatBytes(t, v) ELSE IntBytes(t, v)
FromBytes(t, b) == IF IsFloat(t) THEN FloatVal(t, b) ELSE IntVal(t, b)

Inside(s, t, off) == off >= 0 /\ off + Size(t) <= s.len
At(s, t, off, le) == LET b == SubSeq(s.data, s.lo + off + 1, s.lo + off + Size(t))
                     IN IF le = 1 THEN b ELSE Rev(b)
Put(s, t, off, le, b) ==
  LET x == IF le = 1 THEN b ELSE Rev(b)
  IN [s EXCEPT !.data = [i \in 1..Len(@) |->
        IF i > s.lo + off /\ i <= s.lo + off + Len(x) THEN x[i - s.lo - off] ELSE @[i]]]

Apply(s, op) ==
  LET n == op[1]
      t == op[2]
      el == n \in {"elget", "elset"}
      off == IF el THEN op[3] * Size(t) ELSE op[3]
      le == IF el THEN 1 ELSE op[4]
      v == op[Len(op)]
      whole == [s EXCEPT !.len = IF el THEN (@ \div Size(t)) * Size(t) ELSE @]
      none == IF el THEN <<"IndexError">> ELSE <<"BoundsJSArrayBufferError">>
  IN IF ~Inside(whole, t, off) THEN Rs(s, none)
     ELSE IF n \in {"get", "elget"} THEN Rs(s, <<"val">> \o FromBytes(t, At(s, t, off, le)))
     ELSE IF ~Fits(t, v) THEN Rs(s, <<"refused">>)
     ELSE Rs(Put(s, t, off, le, ToBytes(t, v)), <<"none">>)

\* what is written is what is read
Rounds(t, b) == LET v == FromBytes(t, b)
                IN Fits(t, v) /\ ((IsFloat(t) /\ DNaN(Tail(v))) \/ ToBytes(t, v) = b)
===============================================================================
