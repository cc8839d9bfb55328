------------------------------ MODULE ObjectLog -------------------------------
(***************************************************************************)
(* The log of serialized objects: the n-th object recorded has serialized  *)
(* id n.  Objects are small integers.                                      *)
(*                                                                         *)
(* State: log  entries [key: object it was recorded under, val: what its   *)
(*             id stands for, open: still being built, and not referable]  *)
(*        ctx  ids (1-based) of the entries being built, innermost last    *)
(***************************************************************************)
EXTENDS Integers, Sequences

Empty == [log |-> <<>>, ctx |-> <<>>]
Rs(s, r) == [s |-> s, r |-> r]
Latest(s, o) == LET c == {i \in 1..Len(s.log) : s.log[i].key = o}
                IN IF c = {} THEN 0 ELSE CHOOSE i \in c : \A j \in c : j <= i
Entry(o, open) == [key |-> o, val |-> o, open |-> open]
Close(s, i) == [s EXCEPT !.log[i].open = FALSE]
\* leave the innermost block
Leave(s) == [Close(s, s.ctx[Len(s.ctx)]) EXCEPT !.ctx = SubSeq(@, 1, Len(@) - 1)]
\* an error escapes the blocks down to and including that of entry i
RECURSIVE Unwind(_, _)
Unwind(s, i) == IF s.ctx[Len(s.ctx)] = i THEN Leave(s) ELSE Unwind(Leave(s), i)

Apply(s, op) ==
  LET n == op[1]
      i == IF n \in {"getid", "refer", "has"} THEN Latest(s, op[2]) ELSE 0
  IN
  CASE n = "record" -> Rs([s EXCEPT !.log = Append(@, Entry(op[2], FALSE))],
                          <<"id", Len(s.log)>>)
    [] n = "begin" -> Rs([s EXCEPT !.log = Append(@, Entry(op[2], TRUE)),
                                   !.ctx = Append(@, Len(s.log) + 1)], <<"id", Len(s.log)>>)
    [] n = "end" -> Rs(Leave(s), <<"none">>)
    [] n = "fail" -> Rs(Leave(s), <<"raised">>)
    [] n = "has" -> Rs(s, <<"val", IF i # 0 THEN 1 ELSE 0>>)
    [] n = "getid" -> Rs(s, IF i = 0 THEN <<"unknown", op[2]>>
                            ELSE IF s.log[i].open THEN <<"locked">> ELSE <<"id", i - 1>>)
    [] n = "refer" -> IF i = 0 THEN Rs(s, <<"unknown", op[2]>>)
                      ELSE IF s.log[i].open
                      THEN Rs(Unwind(s, i), <<"illegal", i - 1, op[2]>>)
                      ELSE Rs(s, <<"id", i - 1>>)
    [] n = "getobj" -> Rs(s, IF op[2] < 0 \/ op[2] >= Len(s.log) THEN <<"range", op[2]>>
                             ELSE IF s.log[op[2] + 1].open THEN <<"locked">>
                             ELSE <<"obj", s.log[op[2] + 1].val>>)
    [] n = "replace" -> IF op[2] # Len(s.log) - 1 THEN Rs(s, <<"ValueError">>)
                        ELSE Rs([s EXCEPT !.log[op[2] + 1].val = op[3]], <<"none">>)

Enabled(s, op) ==
  /\ op[1] \in {"end", "fail"} => s.ctx # <<>>
  \* replacing the value of an entry under construction is not defined
  /\ op[1] = "replace" => s.log # <<>> /\ ~s.log[Len(s.log)].open

WellFormed(s) == /\ \A i \in 1..Len(s.log) : s.log[i].open <=> \E k \in 1..Len(s.ctx) : s.ctx[k] = i
                 /\ \A k \in 1..Len(s.ctx) - 1 : s.ctx[k] < s.ctx[k + 1]
\* an object's id is that of its last recording
LatestIsLast(s) == \A i \in 1..Len(s.log) : Latest(s, s.log[i].key) >= i
===============================================================================
