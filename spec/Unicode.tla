------------------------------ MODULE Unicode ------------------------------
(***************************************************************************)
(* Strict UTF-8 and UTF-16-LE decoders: byte sequence -> code points.      *)
(* Written without recursion (one pass over the lead positions) so that    *)
(* long strings stay cheap to evaluate.                                    *)
(***************************************************************************)
EXTENDS Integers, Sequences

BadText == [ok |-> FALSE, cps |-> <<>>]

IsCont(c) == c >= 128 /\ c < 192
\* number of bytes of the sequence headed by c, 0 if c heads none
U8Len(c) == IF c < 128 THEN 1 ELSE IF c >= 194 /\ c < 224 THEN 2
            ELSE IF c >= 224 /\ c < 240 THEN 3 ELSE IF c >= 240 /\ c < 245 THEN 4 ELSE 0
\* code point of the sequence at i, -1 if it is overlong, a surrogate or too big
U8Cp(b, i) ==
  LET c == b[i] n == U8Len(c) t(k) == b[i + k] - 128
  IN CASE n = 1 -> c
       [] n = 2 -> (c - 192) * 64 + t(1)
       [] n = 3 -> LET cp == (c - 224) * 4096 + t(1) * 64 + t(2)
                   IN IF cp < 2048 \/ (cp >= 55296 /\ cp <= 57343) THEN -1 ELSE cp
       [] OTHER -> LET cp == (c - 240) * 262144 + t(1) * 4096 + t(2) * 64 + t(3)
                   IN IF cp < 65536 \/ cp > 1114111 THEN -1 ELSE cp
\* bytes b[i..e-1]
Utf8(b, i, e) ==
  LET idx == [k \in 1..(e - i) |-> i + k - 1]
      IsLead(k) == ~IsCont(b[k])
      leads == SelectSeq(idx, IsLead)
      n == Len(leads)
      End(j) == IF j = n THEN e ELSE leads[j + 1]
      shape == IF i = e THEN TRUE
               ELSE n > 0 /\ leads[1] = i /\ \A j \in 1..n : leads[j] + U8Len(b[leads[j]]) = End(j)
  IN IF ~shape THEN BadText
     ELSE LET cps == [j \in 1..n |-> U8Cp(b, leads[j])]
          IN IF \E j \in 1..n : cps[j] = -1 THEN BadText ELSE [ok |-> TRUE, cps |-> cps]

IsHigh(u) == u >= 55296 /\ u <= 56319
IsLow(u) == u >= 56320 /\ u <= 57343
Utf16le(b, i, e) ==
  IF (e - i) % 2 = 1 THEN BadText
  ELSE LET n == (e - i) \div 2
           u == [k \in 1..n |-> b[i + 2*k - 2] + 256 * b[i + 2*k - 1]]
           paired == \A k \in 1..n : /\ IsHigh(u[k]) => k < n /\ IsLow(u[k + 1])
                                     /\ IsLow(u[k]) => k > 1 /\ IsHigh(u[k - 1])
           idx == [k \in 1..n |-> k]
           IsStart(k) == ~IsLow(u[k])
           st == SelectSeq(idx, IsStart)
           Cp(k) == IF IsHigh(u[k]) THEN 65536 + (u[k] - 55296) * 1024 + (u[k + 1] - 56320)
                    ELSE u[k]
       IN IF ~paired THEN BadText
          ELSE [ok |-> TRUE, cps |-> [j \in 1..Len(st) |-> Cp(st[j])]]

Latin1(b, i, e) == [ok |-> TRUE, cps |-> SubSeq(b, i, e - 1)]
=============================================================================
