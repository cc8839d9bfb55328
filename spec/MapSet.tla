-------------------------------- MODULE MapSet --------------------------------
(***************************************************************************)
(* JavaScript Map and Set (JSMap, JSSet) behind Python's MutableMapping    *)
(* and MutableSet interfaces.  Keys are tokens: primitives as in V8Wire,   *)
(* <<66, ...>> for bytes, <<94, h>> for the object h.  Two keys are one    *)
(* exactly when Same(a, b): numbers by value (NaN is itself, -0 is 0),     *)
(* booleans, strings, bytes, null and undefined by value, the rest by      *)
(* identity.                                                               *)
(*                                                                         *)
(* A state is the sequence of entries <<key, value>> in insertion order    *)
(* (keys as their same-value-zero representatives; the value of a set's    *)
(* entry is 1).                                                            *)
(***************************************************************************)
EXTENDS V8Wire

K(k) == SvzKey(k)
Same(a, b) == K(a) = K(b)
Rs(s, r) == [s |-> s, r |-> r]
Pos(s, k) == LET c == {i \in 1..Len(s) : s[i][1] = K(k)}
             IN IF c = {} THEN 0 ELSE CHOOSE i \in c : TRUE
Has(s, k) == Pos(s, k) # 0
Of(s, k) == s[Pos(s, k)][2]
Put(s, k, v) == LET i == Pos(s, k)
                IN IF i = 0 THEN Append(s, <<K(k), v>>) ELSE [s EXCEPT ![i] = <<K(k), v>>]
Drop(s, k) == SelectSeq(s, LAMBDA e : e[1] # K(k))
RECURSIVE PutAll(_, _)
PutAll(s, es) == IF es = <<>> THEN s ELSE PutAll(Put(s, es[1][1], es[1][2]), Tail(es))
KeysOf(s) == [i \in 1..Len(s) |-> s[i][1]]
ValsOf(s) == [i \in 1..Len(s) |-> s[i][2]]
NoKey(s) == Rs(s, <<"KeyError">>)
B2(x) == <<"val", IF x THEN 1 ELSE 0>>

MapApply(s, op) ==
  LET n == op[1]
      k == IF Len(op) >= 2 THEN op[2] ELSE <<48>>
      h == Has(s, k)
  IN
  CASE n = "set" -> Rs(Put(s, k, op[3]), <<"none">>)
    [] n = "get" -> IF h THEN Rs(s, <<"val", Of(s, k)>>) ELSE NoKey(s)
    [] n = "getdef" -> Rs(s, <<"val", IF h THEN Of(s, k) ELSE op[3]>>)
    [] n = "getnone" -> Rs(s, <<"val", IF h THEN Of(s, k) ELSE 0>>)
    [] n = "has" -> Rs(s, B2(h))
    [] n = "del" -> IF h THEN Rs(Drop(s, k), <<"none">>) ELSE NoKey(s)
    [] n = "pop" -> IF h THEN Rs(Drop(s, k), <<"val", Of(s, k)>>) ELSE NoKey(s)
    [] n = "popdef" -> IF h THEN Rs(Drop(s, k), <<"val", Of(s, k)>>) ELSE Rs(s, <<"val", op[3]>>)
    [] n = "setdefault" -> IF h THEN Rs(s, <<"val", Of(s, k)>>)
                           ELSE Rs(Put(s, k, op[3]), <<"val", op[3]>>)
    [] n \in {"update", "updatemap"} -> Rs(PutAll(s, << <<k, op[3]>>, <<op[4], op[5]>> >>), <<"none">>)
    [] n = "popitem" -> IF s = <<>> THEN NoKey(s)
                        ELSE Rs(Tail(s), <<"item", s[1][1], s[1][2]>>)
    [] n = "clear" -> Rs(<<>>, <<"none">>)
    [] n = "len" -> Rs(s, <<"val", Len(s)>>)
    [] n = "keys" -> Rs(s, <<"keys", KeysOf(s)>>)
    [] n = "values" -> Rs(s, <<"values", ValsOf(s)>>)
    [] n = "copy" -> Rs(s, <<"none">>)

AsSet(ks) == PutAll(<<>>, [i \in 1..Len(ks) |-> <<ks[i], 1>>])
Minus(s, o) == SelectSeq(s, LAMBDA e : ~Has(o, e[1]))
Meet(s, o) == SelectSeq(o, LAMBDA e : Has(s, e[1]))          \* in the order of o
Join(s, o) == PutAll(s, o)
Xor(s, o) == Join(Minus(s, o), Minus(o, s))
SubsetOf(s, o) == \A i \in 1..Len(s) : Has(o, s[i][1])
RECURSIVE Toggle(_, _)
Toggle(s, o) == IF o = <<>> THEN s
                ELSE Toggle(IF Has(s, o[1][1]) THEN Drop(s, o[1][1]) ELSE Put(s, o[1][1], 1), Tail(o))

\* op[3]: the other operand, as the sequence of keys of a list or of a JSSet
SetApply(s, op) ==
  LET n == op[1]
      k == IF Len(op) >= 2 THEN op[2] ELSE <<48>>
      h == Has(s, k)
      o == IF Len(op) >= 3 THEN AsSet(op[3]) ELSE <<>>
      ks(x) == Rs(s, <<"keys", KeysOf(x)>>)
      up(x) == Rs(x, <<"none">>)
  IN
  CASE n = "add" -> up(Put(s, k, 1))
    [] n = "discard" -> up(Drop(s, k))
    [] n = "remove" -> IF h THEN up(Drop(s, k)) ELSE NoKey(s)
    [] n = "has" -> Rs(s, B2(h))
    [] n = "pop" -> IF s = <<>> THEN NoKey(s) ELSE Rs(Tail(s), <<"item", s[1][1], 1>>)
    [] n = "clear" -> up(<<>>)
    [] n = "len" -> Rs(s, <<"val", Len(s)>>)
    [] n = "keys" -> ks(s)
    [] n = "copy" -> up(s)
    [] n \in {"or", "orl", "rorl"} -> ks(Join(s, o))
    [] n \in {"and", "andl", "randl"} -> ks(Meet(s, o))
    [] n \in {"sub", "subl"} -> ks(Minus(s, o))
    [] n = "rsubl" -> ks(Minus(o, s))
    [] n \in {"xor", "xorl", "rxorl"} -> ks(Xor(s, o))
    [] n \in {"ior", "iorl"} -> up(Join(s, o))
    [] n \in {"iand", "iandl"} -> up(SelectSeq(s, LAMBDA e : Has(o, e[1])))
    [] n \in {"isub", "isubl"} -> up(Minus(s, o))
    [] n \in {"ixor", "ixorl"} -> up(Toggle(s, o))
    [] n = "iorself" -> up(s)
    [] n = "iandself" -> up(s)
    [] n = "isubself" -> up(<<>>)
    [] n = "ixorself" -> up(<<>>)
    [] n = "le" -> Rs(s, B2(SubsetOf(s, o)))
    [] n = "lt" -> Rs(s, B2(SubsetOf(s, o) /\ Len(s) < Len(o)))
    [] n = "ge" -> Rs(s, B2(SubsetOf(o, s)))
    [] n = "gt" -> Rs(s, B2(SubsetOf(o, s) /\ Len(o) < Len(s)))
    [] n \in {"disjoint", "disjointl"} -> Rs(s, B2(Meet(s, o) = <<>>))

EntriesWellFormed(s) ==
  /\ \A i, j \in 1..Len(s) : i # j => ~Same(s[i][1], s[j][1])
  /\ \A i \in 1..Len(s) : K(s[i][1]) = s[i][1]
SameIsEquivalence(ks) ==
  \A a, b, c \in ks : /\ Same(a, a)
                     /\ (Same(a, b) => Same(b, a))
                     /\ ((Same(a, b) /\ Same(b, c)) => Same(a, c))
SetLaws(s, o) ==
  /\ Len(Join(s, o)) + Len(Meet(s, o)) = Len(s) + Len(o)
  /\ SubsetOf(Xor(s, o), Join(s, o)) /\ Meet(Xor(s, o), Meet(s, o)) = <<>>
===============================================================================
