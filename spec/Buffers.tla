------------------------------- MODULE Buffers --------------------------------
(***************************************************************************)
(* Buffers, resizing, and the views over them, after JavaScript's          *)
(* ArrayBuffer, TypedArray and DataView.                                   *)
(*                                                                         *)
(* State: data   the bytes                                                 *)
(*        over   what the owner of the wrapped bytes put after max of them *)
(*        max    maximum length (equal to the length of a fixed buffer)    *)
(*        rsz    can be resized;  ro  cannot be written                    *)
(*        views  [sz: bytes per element, off: offset in elements,          *)
(*                len: length in elements or -1, ro]                       *)
(***************************************************************************)
EXTENDS Integers, Sequences

Rs(s, r) == [s |-> s, r |-> r]
Cur(s) == Len(s.data)
Min(a, b) == IF a < b THEN a ELSE b
Zeros(n) == [i \in 1..n |-> 0]
Resized(d, n) == IF n <= Len(d) THEN SubSeq(d, 1, n) ELSE d \o Zeros(n - Len(d))

Off(v) == v.off * v.sz
\* JavaScript's IsTypedArrayOutOfBounds
Fixed(v) == v.len # -1
OutOfBounds(s, v) == Off(v) > Cur(s) \/ (Fixed(v) /\ Off(v) + v.len * v.sz > Cur(s))
\* a view without a length tracks a resizable buffer
Tracking(s, v) == ~Fixed(v) /\ s.rsz
ByteLen(s, v) == IF OutOfBounds(s, v) THEN 0
                 ELSE IF Fixed(v) THEN v.len * v.sz
                 ELSE ((Cur(s) - Off(v)) \div v.sz) * v.sz
ByteOff(s, v) == IF OutOfBounds(s, v) THEN 0 ELSE Off(v)
Bytes(s, v) == SubSeq(s.data, ByteOff(s, v) + 1, ByteOff(s, v) + ByteLen(s, v))
B2(x) == IF x THEN 1 ELSE 0
Info(s, v) == <<B2(~OutOfBounds(s, v)), ByteOff(s, v), ByteLen(s, v), B2(Tracking(s, v)),
                B2(v.ro \/ s.ro)>> \o Bytes(s, v)
V(sz, off, len, ro) == [sz |-> sz, off |-> off, len |-> len, ro |-> ro]

(* What JavaScript's constructors refuse; bo, bl in bytes (bl = -1: none). *)
Refusal(s, sz, bo, bl) ==
  IF bo % sz # 0 \/ (bl # -1 /\ bl % sz # 0) THEN "ItemSizeJSArrayBufferError"
  ELSE IF bo < 0 \/ bl < -1 THEN "ValueError"
  ELSE IF bl = -1 /\ ~s.rsz /\ Cur(s) % sz # 0 THEN "BoundsJSArrayBufferError"
  ELSE IF bo > Cur(s) \/ (bl # -1 /\ bo + bl > Cur(s)) THEN "BoundsJSArrayBufferError"
  ELSE ""
\* (an element index, not a byte position)
Elem(s, v, i) == i >= 0 /\ i < ByteLen(s, v) \div v.sz

Apply(s, op) ==
  LET n == op[1]
      v == s.views[op[2]]
  IN
  CASE n = "resize" -> IF ~s.rsz \/ op[2] < 0 \/ op[2] > s.max
                       THEN Rs(s, <<"ByteLengthJSArrayBufferError">>)
                       ELSE Rs([s EXCEPT !.data = Resized(@, op[2]), !.over = <<>>], <<"none">>)
    [] n = "own" ->        \* the owner of the wrapped bytes changes their number
         LET d == Resized(s.data \o s.over, op[2])
         IN Rs([s EXCEPT !.data = SubSeq(d, 1, Min(Len(d), s.max)), !.over = SubSeq(d, s.max + 1, Len(d))],
               <<"none">>)
    [] n \in {"create", "frombytes"} ->     \* sz, byte offset, byte length or -1, read only
         LET e == Refusal(s, op[2], op[3], op[4])
         IN IF e # "" THEN Rs(s, <<e>>)
            ELSE Rs([s EXCEPT !.views = Append(@, V(op[2], op[3] \div op[2],
                       IF op[4] = -1 THEN -1 ELSE op[4] \div op[2], op[5] = 1))], <<"none">>)
    [] n = "new" ->        \* sz, item offset, item length or -1, read only: may be out of range
         IF op[3] < 0 \/ op[4] < -1 THEN Rs(s, <<"ValueError">>)
         ELSE Rs([s EXCEPT !.views = Append(@, V(op[2], op[3], op[4], op[5] = 1))], <<"none">>)
    [] n = "look" -> Rs(s, <<"info">> \o [i \in 1..Len(s.views) |-> Info(s, s.views[i])])
    [] n = "fill" ->       \* every byte of a view
         IF s.ro \/ v.ro THEN Rs(s, <<"TypeError">>)
         ELSE Rs([s EXCEPT !.data = [i \in 1..Len(@) |->
                    IF i > ByteOff(s, v) /\ i <= ByteOff(s, v) + ByteLen(s, v)
                    THEN op[3] ELSE @[i]]], <<"none">>)
    [] n = "poke" ->       \* one element, all its bytes
         IF s.ro \/ v.ro THEN Rs(s, <<"TypeError">>)
         ELSE IF ~Elem(s, v, op[3]) THEN Rs(s, <<"IndexError">>)
         ELSE Rs([s EXCEPT !.data = [i \in 1..Len(@) |->
                    IF i > ByteOff(s, v) + op[3] * v.sz
                       /\ i <= ByteOff(s, v) + (op[3] + 1) * v.sz
                    THEN op[4] ELSE @[i]]], <<"none">>)
    [] n = "peek" -> IF ~Elem(s, v, op[3]) THEN Rs(s, <<"IndexError">>)
                     ELSE Rs(s, <<"bytes">> \o SubSeq(Bytes(s, v), op[3] * v.sz + 1,
                                                      (op[3] + 1) * v.sz))

WellFormed(s) == /\ Len(s.data) <= s.max
                 /\ s.over # <<>> => Len(s.data) = s.max
                 /\ ~s.rsz => Len(s.data) = s.max
                 /\ ~(s.ro /\ s.rsz)
\* a view never shows bytes outside its buffer, and whole elements only
ViewsInside(s) == \A i \in 1..Len(s.views) :
  LET v == s.views[i]
  IN /\ ByteOff(s, v) + ByteLen(s, v) <= Cur(s)
     /\ ByteLen(s, v) % v.sz = 0
     /\ OutOfBounds(s, v) => ByteLen(s, v) = 0
     /\ Tracking(s, v) /\ ~OutOfBounds(s, v) => Cur(s) - Off(v) - ByteLen(s, v) < v.sz
===============================================================================
