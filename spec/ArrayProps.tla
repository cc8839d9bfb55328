------------------------------ MODULE ArrayProps ------------------------------
(***************************************************************************)
(* The sequence of an object's integer-indexed properties (JSArray.array): *)
(* a JavaScript array's elements seen through Python's MutableSequence     *)
(* interface.  The two storages of the library (dense and sparse) are both *)
(* implementations of this one machine.                                    *)
(*                                                                         *)
(* A state is [len, el]: el lists <<index, value>> of the elements that    *)
(* are not holes by ascending index.  Values are positive integers, HOLE   *)
(* is 0.  MaxLen is the longest array (2^32-1 in JavaScript).              *)
(*                                                                         *)
(* Apply(s, op) is the new state and the result of one call: <<"none">>,   *)
(* <<"val", v>>, <<"seq", ...>> or an exception's name.                    *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets

CONSTANT MaxLen
HOLE == 0

Empty == [len |-> 0, el |-> <<>>]
R(s, r) == [s |-> s, r |-> r]
None(s) == R(s, <<"none">>)
Err(s, e) == R(s, <<e>>)

Idx(s) == {s.el[k][1] : k \in 1..Len(s.el)}
At(s, i) == LET k == {j \in 1..Len(s.el) : s.el[j][1] = i}
            IN IF k = {} THEN HOLE ELSE s.el[CHOOSE j \in k : TRUE][2]
Keep(el, P(_)) == SelectSeq(el, P)
Map(el, f(_)) == [k \in 1..Len(el) |-> <<f(el[k][1]), el[k][2]>>]
PutEl(el, i, v) ==
  LET lo == SelectSeq(el, LAMBDA e : e[1] < i)
      hi == SelectSeq(el, LAMBDA e : e[1] > i)
  IN lo \o (IF v = HOLE THEN <<>> ELSE << <<i, v>> >>) \o hi

Norm(s, i) == IF i < 0 THEN s.len + i ELSE i
InRange(s, i) == Norm(s, i) >= 0 /\ Norm(s, i) < s.len

Set(s, i, v) == [s EXCEPT !.el = PutEl(s.el, i, v)]
\* del of a sequence closes the gap
Remove(s, i) ==
  [len |-> s.len - 1,
   el |-> SelectSeq(s.el, LAMBDA e : e[1] < i)
          \o LET hi == SelectSeq(s.el, LAMBDA e : e[1] > i)
             IN [k \in 1..Len(hi) |-> <<hi[k][1] - 1, hi[k][2]>>]]
InsertAt(s, i, v) ==
  LET lo == SelectSeq(s.el, LAMBDA e : e[1] < i)
      hi == SelectSeq(s.el, LAMBDA e : e[1] >= i)
  IN [len |-> s.len + 1,
      el |-> lo \o (IF v = HOLE THEN <<>> ELSE << <<i, v>> >>)
             \o [k \in 1..Len(hi) |-> <<hi[k][1] + 1, hi[k][2]>>]]
AppendV(s, v) == InsertAt(s, s.len, v)
Resize(s, n) == [len |-> n, el |-> SelectSeq(s.el, LAMBDA e : e[1] < n)]
Reverse(s) ==
  LET n == Len(s.el)
  IN [s EXCEPT !.el = [k \in 1..n |-> <<s.len - 1 - s.el[n + 1 - k][1], s.el[n + 1 - k][2]>>]]

RECURSIVE Extend(_, _)
Extend(s, vs) == IF vs = <<>> THEN s ELSE Extend(AppendV(s, Head(vs)), Tail(vs))
Double(s) == [len |-> 2 * s.len,
              el |-> s.el \o [k \in 1..Len(s.el) |-> <<s.el[k][1] + s.len, s.el[k][2]>>]]

Clamp(s, i) == IF i < 0 THEN (IF s.len + i < 0 THEN 0 ELSE s.len + i)
               ELSE IF i > s.len THEN s.len ELSE i

\* The first index in lo..hi-1 holding v (-1: none).  Searching for a hole only
\* needs to look at the first position that is not an element.
MinOf(S) == CHOOSE x \in S : \A y \in S : x <= y
FirstFrom(s, v, lo, hi) ==
  IF v # HOLE
  THEN LET c == {s.el[k][1] : k \in {j \in 1..Len(s.el) : s.el[j][2] = v}}
           d == {i \in c : i >= lo /\ i < hi}
       IN IF d = {} THEN -1 ELSE MinOf(d)
  ELSE LET c == {lo} \cup {i + 1 : i \in {j \in Idx(s) : j >= lo}}
           d == {i \in c : i < hi /\ i < s.len /\ i \notin Idx(s)}
       IN IF d = {} THEN -1 ELSE MinOf(d)
Lo(s, i) == IF i < 0 THEN (IF s.len + i < 0 THEN 0 ELSE s.len + i) ELSE i
Hi(s, i) == IF i < 0 THEN s.len + i ELSE i

\* The whole sequence with its holes
RECURSIVE Fill(_, _, _)
Fill(el, k, n) ==      \* the first n items, k elements being at or before them
  IF n = 0 THEN <<>>
  ELSE IF k > 0 /\ el[k][1] = n - 1 THEN Append(Fill(el, k - 1, n - 1), el[k][2])
  ELSE Append(Fill(el, k, n - 1), HOLE)
Items(s) == Fill(s.el, Len(s.el), s.len)

Apply(s, op) ==
  LET n == op[1] IN
  CASE n = "get" -> IF InRange(s, op[2]) THEN R(s, <<"val", At(s, Norm(s, op[2]))>>)
                    ELSE Err(s, "IndexError")
    [] n = "set" -> IF InRange(s, op[2]) THEN None(Set(s, Norm(s, op[2]), op[3]))
                    ELSE Err(s, "IndexError")
    [] n = "del" -> IF InRange(s, op[2]) THEN None(Remove(s, Norm(s, op[2])))
                    ELSE Err(s, "IndexError")
    [] n = "insert" -> IF s.len >= MaxLen THEN Err(s, "IndexError")
                       ELSE None(InsertAt(s, Clamp(s, op[2]), op[3]))
    [] n = "append" -> IF s.len >= MaxLen THEN Err(s, "IndexError") ELSE None(AppendV(s, op[2]))
    [] n = "extend" -> None(Extend(s, <<op[2], op[3]>>))
    [] n = "iadd" -> IF s.len >= MaxLen THEN Err(s, "IndexError")
                     ELSE None(Extend(s, <<op[2]>>))
    [] n = "extendself" -> None(Double(s))
    [] n = "pop" -> IF InRange(s, -1) THEN R(Remove(s, s.len - 1), <<"val", At(s, s.len - 1)>>)
                    ELSE Err(s, "IndexError")
    [] n = "popat" -> IF InRange(s, op[2])
                      THEN R(Remove(s, Norm(s, op[2])), <<"val", At(s, Norm(s, op[2]))>>)
                      ELSE Err(s, "IndexError")
    [] n = "remove" -> LET i == FirstFrom(s, op[2], 0, s.len)
                       IN IF i < 0 THEN Err(s, "ValueError") ELSE None(Remove(s, i))
    [] n = "reverse" -> None(Reverse(s))
    [] n = "clear" -> None(Empty)
    [] n = "resize" -> IF op[2] < 0 \/ op[2] > MaxLen THEN Err(s, "ValueError")
                       ELSE None(Resize(s, op[2]))
    [] n = "index" -> LET i == FirstFrom(s, op[2], 0, s.len)
                      IN IF i < 0 THEN Err(s, "ValueError") ELSE R(s, <<"val", i>>)
    [] n = "indexin" -> LET i == FirstFrom(s, op[2], Lo(s, op[3]), Hi(s, op[4]))
                        IN IF i < 0 THEN Err(s, "ValueError") ELSE R(s, <<"val", i>>)
    [] n = "contains" -> R(s, <<"val", IF FirstFrom(s, op[2], 0, s.len) >= 0 THEN 1 ELSE 0>>)
    [] n = "count" -> R(s, <<"val", IF op[2] = HOLE THEN s.len - Len(s.el)
                                    ELSE Len(SelectSeq(s.el, LAMBDA e : e[2] = op[2]))>>)
    [] n = "len" -> R(s, <<"val", s.len>>)
    [] n = "used" -> R(s, <<"val", Len(s.el)>>)
    [] n = "elget" -> LET v == At(s, op[2]) IN IF v = HOLE THEN Err(s, "KeyError") ELSE R(s, <<"val", v>>)
    [] n = "asc" -> R(s, <<"seq">> \o [k \in 1..Len(s.el) |-> s.el[k][1]])
    [] n = "desc" -> R(s, <<"seq">> \o [k \in 1..Len(s.el) |-> s.el[Len(s.el) + 1 - k][1]])
    [] n = "iter" -> R(s, <<"seq">> \o Items(s))
    [] n = "riter" -> R(s, <<"seq">> \o Items(Reverse(s)))
    \* conversions to the other storage, from the sequence and from the entries
    [] n \in {"densify", "sparsify", "sparsifyentries"} -> None(s)

---------------------------------------------------------------------------
(* What every reachable state satisfies *)
WellFormed(s) ==
  /\ s.len \in 0..MaxLen
  /\ \A k \in 1..Len(s.el) : s.el[k][2] # HOLE /\ s.el[k][1] \in 0..(s.len - 1)
  /\ \A k \in 1..(Len(s.el) - 1) : s.el[k][1] < s.el[k + 1][1]
\* Laws connecting the operations
Laws(s) ==
  /\ Reverse(Reverse(s)) = s
  /\ \A i \in 0..s.len, v \in {0, 1} :
       s.len < MaxLen => Remove(InsertAt(s, i, v), i) = s
  /\ \A n \in 0..s.len : Resize(Resize(s, s.len), n) = Resize(s, n)
  /\ Resize(Resize(s, IF s.len < MaxLen THEN s.len + 1 ELSE s.len), s.len) = s
  /\ Len(s.el) + Apply(s, <<"count", HOLE>>).r[2] = s.len
===============================================================================
