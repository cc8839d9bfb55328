-------------------------------- MODULE LeafEq --------------------------------
(***************************************************************************)
(* Equality and hashing of the values that hold no other values: views,    *)
(* buffers, handles to remote buffers, wrapped primitives, RegExps,        *)
(* undefined and holes (containers and errors: Equality.tla).              *)
(*                                                                         *)
(* State: bufs  [data, max, rsz, hard: bytes nobody can change]            *)
(*        vals  the values compared, as tuples:                            *)
(*   <<"view", type, buffer, item offset, items or -1>>                    *)
(*   <<"remote", type, kind, id, byte offset, byte length>>  (a view)      *)
(*   <<"buf", buffer>>, <<"handle", kind, id>>                             *)
(*   <<"prim", tag, number token or code points>>                          *)
(*   <<"regexp", source, flags>>, <<"atom", name>>                         *)
(***************************************************************************)
EXTENDS Mag, TLC
DV == INSTANCE DataView

Rs(s, r) == [s |-> s, r |-> r]
Type(t) == IF t \in {"clamped", "dataview"} THEN "uint8" ELSE t
B(s, v) == s.bufs[v[3]]
Sz(v) == DV!Size(Type(v[2]))
Out(s, v) == \/ v[4] * Sz(v) > Len(B(s, v).data)
             \/ v[5] # -1 /\ (v[4] + v[5]) * Sz(v) > Len(B(s, v).data)
Items(s, v) == IF Out(s, v) THEN 0
               ELSE IF v[5] # -1 THEN v[5]
               ELSE (Len(B(s, v).data) - v[4] * Sz(v)) \div Sz(v)
Item(s, v, i) == LET o == (v[4] + i - 1) * Sz(v)
                 IN DV!FromBytes(Type(v[2]), SubSeq(B(s, v).data, o + 1, o + Sz(v)))
NaN(n) == n[1] = 78 /\ DNaN(Tail(n))
\* equal numbers have one key, whatever holds them
NumKey(n) == IF n[1] = 73 \/ NaN(n) THEN n
             ELSE LET d == DInteger(Tail(n))
                  IN IF d.int THEN <<73, d.neg, Len(d.m)>> \o d.m ELSE n
Keys(s, v) == [i \in 1..Items(s, v) |-> NumKey(Item(s, v, i))]

(* What a value is compared by: equal keys of one kind are equal values,    *)
(* but nothing equals a value that shows a NaN, except itself.               *)
Key(s, i) ==
  LET a == s.vals[i]
      K(nan, key) == [kind |-> a[1], nan |-> nan, key |-> key]
  IN CASE a[1] = "view" -> LET k == TLCEval(Keys(s, a))
                           IN K(\E x \in DOMAIN k : NaN(k[x]), k)
       [] a[1] = "buf" -> LET b == s.bufs[a[2]] IN K(FALSE, <<b.data, b.max, b.rsz>>)
       [] a[1] = "prim" -> K(FALSE, <<a[2], IF a[2] = "string" THEN a[3] ELSE NumKey(a[3])>>)
       [] a[1] = "regexp" -> K(FALSE, <<IF a[2] = "" THEN "(?:)" ELSE a[2], a[3]>>)
       [] OTHER -> K(FALSE, a)
EqKeys(K, i, j) == i = j \/ (K[i].kind = K[j].kind /\ ~K[i].nan /\ ~K[j].nan /\ K[i].key = K[j].key)
AllKeys(s) == TLCEval([i \in 1..Len(s.vals) |-> TLCEval(Key(s, i))])
Hashable(s, i) == LET a == s.vals[i]
                  IN CASE a[1] = "view" -> B(s, a).hard
                       [] a[1] = "buf" -> s.bufs[a[2]].hard
                       [] OTHER -> TRUE

N(s) == 1..Len(s.vals)
Bit(x) == IF x THEN 1 ELSE 0
Look(s) == LET K == AllKeys(s)
           IN <<"eq">> \o [i \in N(s) |-> <<Bit(Hashable(s, i))>>
                                          \o [j \in N(s) |-> Bit(EqKeys(K, i, j))]]

Apply(s, op) ==
  CASE op[1] = "look" -> Rs(s, Look(s))
    [] op[1] = "write" -> Rs([s EXCEPT !.bufs[op[2]].data[op[3]] = op[4]], <<"none">>)
    [] op[1] = "resize" -> Rs([s EXCEPT !.bufs[op[2]].data =
           IF op[3] <= Len(@) THEN SubSeq(@, 1, op[3]) ELSE @ \o Zeros(op[3] - Len(@))], <<"none">>)
CanWrite(s, b, k) == ~s.bufs[b].hard /\ k \in 1..Len(s.bufs[b].data)
CanResize(s, b, n) == s.bufs[b].rsz /\ n \in 0..s.bufs[b].max

(* Equality is an equivalence, *)
Equivalence(s) ==
  LET K == AllKeys(s)
      E == TLCEval([i \in N(s) |-> {j \in N(s) : EqKeys(K, i, j)}])
  IN \A i \in N(s) : /\ i \in E[i]
                     /\ \A j \in E[i] : E[j] = E[i]
(* and views of the same bytes as the same type are equal, NaNs apart. *)
SameBytes(s) ==
  LET K == AllKeys(s)
  IN \A i, j \in N(s) :
       LET a == s.vals[i]
           b == s.vals[j]
       IN a[1] = "view" /\ a = b /\ ~K[i].nan => EqKeys(K, i, j)
===============================================================================
