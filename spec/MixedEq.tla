------------------------------- MODULE MixedEq --------------------------------
(* Equality of JSMap and JSSet with each other and with Python's containers.  *)
(*                                                                            *)
(* A key or value is a token: a real object.  Its attributes are              *)
(*   id    objects with the same id are one object                            *)
(*   svz   same-value-zero: tokens of one class are one key of a JS container *)
(*   eq    Python's ==: tokens of one class are equal (if refl)               *)
(*   refl  FALSE for NaN, which equals nothing                                *)
(*   hash  whether a Python dict or set can hold it                           *)
(* A container is the sequence of its entries <<key, value>> in insertion     *)
(* order, made by putting entries one after another.  The values of a set's   *)
(* entries are all the same.                                                  *)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt

\* Python's containers compare elements by identity, then by ==
Same(a, b) == a.id = b.id \/ (a.refl /\ b.refl /\ a.eq = b.eq)
SameEntry(x, y) == Same(x[1], y[1]) /\ Same(x[2], y[2])

Slots(s, P(_)) == {i \in 1..Len(s) : P(s[i][1])}
At(s, P(_)) == IF Slots(s, P) = {} THEN 0 ELSE CHOOSE i \in Slots(s, P) : TRUE
\* JS containers replace the entry of the key, where it is
JSPut(s, e) == LET P(k) == k.svz = e[1].svz
                   i == At(s, P)
               IN IF i = 0 THEN Append(s, e) ELSE [s EXCEPT ![i] = e]
\* Python's keep the key they have
PyPut(s, e) == LET P(k) == Same(k, e[1])
                   i == At(s, P)
               IN IF i = 0 THEN Append(s, e) ELSE [s EXCEPT ![i] = <<s[i][1], e[2]>>]
Make(puts, kind) == FoldLeft(LAMBDA s, e : IF kind = "js" THEN JSPut(s, e) ELSE PyPut(s, e), <<>>, puts)
Hashable(s) == \A i \in 1..Len(s) : s[i][1].hash

\* JS containers: like the lists of their entries
ListEq(l, r) == Len(l) = Len(r) /\ \A i \in 1..Len(l) : SameEntry(l[i], r[i])
\* Python's: without order
DictEq(l, r) == Len(l) = Len(r) /\ \A i \in 1..Len(l) : \E j \in 1..Len(r) : SameEntry(l[i], r[j])
\* a JS container and one of Python's: as many entries, and equal as Python's container of the entries
MixedEq(l, r) == Len(l) = Len(r) /\ Hashable(l) /\ DictEq(Make(l, "py"), r)

\* kind of the right container: "js", "py", or "other" (of another type, whatever it holds)
Equal(l, kind, r) == CASE kind = "js" -> ListEq(l, r)
                       [] kind = "py" -> MixedEq(l, r)
                       [] kind = "other" -> FALSE

-----------------------------------------------------------------------------
\* s: [l, kind, r]; ops put an entry left or right, or compare
Apply(s, op) ==
  CASE op[1] = "left" -> [s |-> [s EXCEPT !.l = JSPut(@, <<op[2], op[3]>>)], r |-> -1]
    [] op[1] = "right" -> [s |-> [s EXCEPT !.r = IF s.kind = "py" THEN PyPut(@, <<op[2], op[3]>>)
                                                 ELSE JSPut(@, <<op[2], op[3]>>)], r |-> -1]
    [] op[1] = "look" -> [s |-> s, r |-> IF Equal(s.l, s.kind, s.r) THEN 1 ELSE 0]
===============================================================================
