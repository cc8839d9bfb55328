-------------------------------- MODULE JSObj --------------------------------
(***************************************************************************)
(* JavaScript objects and arrays as mappings (JSObject, JSArray): property *)
(* keys may be spelled as strings, integers or doubles.                    *)
(*                                                                         *)
(* A state is [len, ints, strs]: the length of the array part (a magnitude)*)
(* its elements <<key, value>> by ascending index, and the other properties*)
(* <<key, value>> in insertion order.  Keys are the key tokens of V8Wire   *)
(* (IntTok for array indexes, StrTok otherwise), calls carry raw keys in   *)
(* any spelling (string, integer and double tokens).  Values are positive  *)
(* integers, 0 is a hole.                                                  *)
(***************************************************************************)
EXTENDS V8Wire

NO == 0
EmptyObj == [len |-> <<>>, ints |-> <<>>, strs |-> <<>>]
Res(s, r) == [s |-> s, r |-> r]

\* Text of the non-integral doubles used as keys (JavaScript Number::toString)
Fractions == <<
  [b |-> <<0,0,0,0,0,0,248,63>>, t |-> <<49,46,53>>],           \* 1.5
  [b |-> <<0,0,0,0,0,0,248,191>>, t |-> <<45,49,46,53>>],       \* -1.5
  [b |-> <<0,0,0,0,0,0,224,63>>, t |-> <<48,46,53>>],           \* 0.5
  [b |-> <<0,0,0,0,0,0,2,64>>, t |-> <<50,46,50,53>>] >>        \* 2.25
FracText(b) == (CHOOSE i \in 1..Len(Fractions) : Fractions[i].b = b)
IsFrac(k) == k[1] = 78 /\ \E i \in 1..Len(Fractions) : Fractions[i].b = Tail(k)
Key(k) == IF IsFrac(k) THEN StrTok(Fractions[FracText(Tail(k))].t) ELSE PropKey(k)

Find(ps, k) == LET c == {i \in 1..Len(ps) : ps[i][1] = k}
               IN IF c = {} THEN 0 ELSE CHOOSE i \in c : TRUE
Part(s, k) == IF IsIndexKey(k) THEN s.ints ELSE s.strs
Val(s, k) == LET i == Find(Part(s, k), k) IN IF i = 0 THEN NO ELSE Part(s, k)[i][2]
Without(ps, k) == SelectSeq(ps, LAMBDA e : e[1] # k)
PutInt(ps, k, v) ==
  SelectSeq(ps, LAMBDA e : MagCmp(KeyMag(e[1]), KeyMag(k)) < 0)
  \o (IF v = NO THEN <<>> ELSE << <<k, v>> >>)
  \o SelectSeq(ps, LAMBDA e : MagCmp(KeyMag(e[1]), KeyMag(k)) > 0)
PutStr(ps, k, v) ==
  IF v = NO THEN Without(ps, k)
  ELSE LET i == Find(ps, k)
       IN IF i = 0 THEN Append(ps, <<k, v>>) ELSE [ps EXCEPT ![i] = <<k, v>>]
\* obj[k] = v.  Storing a hole removes a property, but extends the array part.
OPut(s, k, v) ==
  IF IsIndexKey(k)
  THEN [s EXCEPT !.len = MagMax(@, AddNat(KeyMag(k), 1)), !.ints = PutInt(@, k, v)]
  ELSE [s EXCEPT !.strs = PutStr(@, k, v)]
\* delete obj[k] leaves a hole
ODel(s, k) == IF IsIndexKey(k) THEN [s EXCEPT !.ints = Without(@, k)]
              ELSE [s EXCEPT !.strs = Without(@, k)]
OLen(s) == Len(s.ints) + Len(s.strs)
All(s) == s.ints \o s.strs
Keys(ps) == [i \in 1..Len(ps) |-> ps[i][1]]
Vals(ps) == [i \in 1..Len(ps) |-> ps[i][2]]
KeyErr(s) == Res(s, <<"KeyError">>)

Apply(s, op) ==
  LET n == op[1]
      k == IF Len(op) >= 2 THEN Key(op[2]) ELSE <<>>
      v == IF Len(op) >= 2 THEN Val(s, k) ELSE NO
  IN
  CASE n = "set" -> Res(OPut(s, k, op[3]), <<"none">>)
    [] n = "get" -> IF v = NO THEN KeyErr(s) ELSE Res(s, <<"val", v>>)
    [] n = "getdef" -> Res(s, <<"val", IF v = NO THEN op[3] ELSE v>>)
    [] n = "has" -> Res(s, <<"val", IF v = NO THEN 0 ELSE 1>>)
    [] n = "del" -> IF v = NO THEN KeyErr(s) ELSE Res(ODel(s, k), <<"none">>)
    [] n = "pop" -> IF v = NO THEN KeyErr(s) ELSE Res(ODel(s, k), <<"val", v>>)
    [] n = "popdef" -> IF v = NO THEN Res(s, <<"val", op[3]>>) ELSE Res(ODel(s, k), <<"val", v>>)
    [] n = "setdefault" -> IF v = NO THEN Res(OPut(s, k, op[3]), <<"val", op[3]>>)
                           ELSE Res(s, <<"val", v>>)
    [] n = "update" -> Res(OPut(OPut(s, k, op[3]), Key(op[4]), op[5]), <<"none">>)
    [] n = "popitem" -> IF OLen(s) = 0 THEN KeyErr(s)
                        ELSE LET e == All(s)[1] IN Res(ODel(s, e[1]), <<"item", e[1], e[2]>>)
    [] n = "clear" -> Res([s EXCEPT !.ints = <<>>, !.strs = <<>>], <<"none">>)
    [] n = "len" -> Res(s, <<"val", OLen(s)>>)
    [] n = "keys" -> Res(s, <<"keys", Keys(All(s))>>)
    [] n = "values" -> Res(s, <<"values", Vals(All(s))>>)
    [] n = "rkeys" -> Res(s, <<"keys", Keys(s.strs)>>)      \* the .properties view
    [] n = "arrlen" -> Res(s, <<"mag", s.len>>)
    [] n = "push" -> IF MagCmp(s.len, MaxLength) >= 0 THEN Res(s, <<"IndexError">>)
                     ELSE Res([s EXCEPT !.len = AddNat(@, 1),
                                        !.ints = PutInt(@, IntTok(0, s.len), op[3])], <<"none">>)
    [] n = "setlen" -> Res([s EXCEPT !.len = op[2],
                              !.ints = SelectSeq(@, LAMBDA e : MagCmp(KeyMag(e[1]), op[2]) < 0)],
                           <<"none">>)

ObjWellFormed(s) ==
  /\ MagCmp(s.len, MaxLength) <= 0
  /\ \A i \in 1..Len(s.ints) : /\ IsIndexKey(s.ints[i][1]) /\ s.ints[i][2] # NO
                              /\ MagCmp(KeyMag(s.ints[i][1]), s.len) < 0
  /\ \A i \in 1..(Len(s.ints) - 1) : MagCmp(KeyMag(s.ints[i][1]), KeyMag(s.ints[i + 1][1])) < 0
  /\ \A i, j \in 1..Len(s.strs) : i # j => s.strs[i][1] # s.strs[j][1]
  /\ \A i \in 1..Len(s.strs) : ~IsIndexKey(s.strs[i][1]) /\ s.strs[i][2] # NO
\* A key and every normalised spelling of it name the same property.
KeyIdempotent(ks) == \A k \in ks : Key(Key(k)) = Key(k)
===============================================================================
