-------------------------------- MODULE Stream --------------------------------
(* The low-level stream writer and reader of single tagged data items.        *)
(*                                                                            *)
(* Writer state: [w, n, con, f] - the bytes, how many objects have an id, the *)
(* allowed tags (<<>>: any) and the enabled features.  Write(st, op) is       *)
(* [s, r], r = "ok" or "refused".                                             *)
(* Reader state: [b, pos, n, ver] - pos is the 0-based position.  Read(st,op) *)
(* is [s, r, v, amb]: r = "ok" with the value tokens v, or "refused".         *)
EXTENDS V8Wire

RECURSIVE VarintOf(_)
VarintOf(m) == LET d == DivMod(m, 128)
               IN IF d.q = <<>> THEN <<d.r>> ELSE <<d.r + 128>> \o VarintOf(d.q)
\* -1 -> 1, 1 -> 2, -2 -> 3
ZigOf(neg, m) == IF m = <<>> THEN m ELSE IF neg = 0 THEN MulAdd(m, 2, 0)
                 ELSE LET d == DivMod(m, 256) IN \* 2m - 1
                      LET t == MulAdd(m, 2, 0) IN
                      IF t[1] > 0 THEN Trim([t EXCEPT ![1] = @ - 1])
                      ELSE LET k == CHOOSE j \in 1..Len(t) : t[j] # 0 /\ \A x \in 1..(j - 1) : t[x] = 0
                           IN Trim([x \in 1..Len(t) |-> IF x < k THEN 255 ELSE IF x = k THEN t[x] - 1 ELSE t[x]])
NatVar(n) == VarintOf(NatMag(n))
Flat(ss) == LET RECURSIVE G(_) G(k) == IF k > Len(ss) THEN <<>> ELSE ss[k] \o G(k + 1) IN G(1)

Utf8Of(cps) == Flat([k \in 1..Len(cps) |-> LET c == cps[k] IN
    CASE c < 128 -> <<c>>
      [] c < 2048 -> <<192 + (c \div 64), 128 + (c % 64)>>
      [] c < 65536 -> <<224 + (c \div 4096), 128 + ((c \div 64) % 64), 128 + (c % 64)>>
      [] OTHER -> <<240 + (c \div 262144), 128 + ((c \div 4096) % 64), 128 + ((c \div 64) % 64), 128 + (c % 64)>>])
Utf16Of(cps) == Flat([k \in 1..Len(cps) |-> LET c == cps[k] IN
    IF c < 65536 THEN <<c % 256, c \div 256>>
    ELSE LET h == 55296 + ((c - 65536) \div 1024)  l == 56320 + ((c - 65536) % 1024)
         IN <<h % 256, h \div 256, l % 256, l \div 256>>])
Surrogate(cps) == \E k \in 1..Len(cps) : cps[k] >= 55296 /\ cps[k] <= 57343
BigOf(neg, m) == LET d == IF m = <<>> \/ m[Len(m)] >= 128 THEN Append(m, 0) ELSE m
                 IN VarintOf(AddNat(MulAdd(NatMag(Len(d)), 2, 0), IF m = <<>> THEN 0 ELSE neg)) \o d
\* -2^31..2^31-1
IsInt32(neg, m) == Len(m) < 4 \/ (Len(m) = 4 /\ (m[4] < 128 \/ (neg = 1 /\ m = <<0, 0, 0, 128>>)))
IsUint32(neg, m) == Len(m) <= 4 /\ (neg = 0 \/ m = <<>>)
KeyCon == <<34, 73, 78, 83, 85, 99, 110, 115>>
ErrTags == <<69, 82, 70, 83, 84, 85>>

Ok(st) == [s |-> st, r |-> "ok"]
No(st) == [s |-> st, r |-> "refused"]
May(st, t) == st.con = <<>> \/ \E k \in 1..Len(st.con) : st.con[k] = t
Put(st, b) == [st EXCEPT !.w = @ \o b]
Tagged(st, t, b) == IF May(st, t) THEN Ok(Put(st, <<t>> \o b)) ELSE No(st)
\* t = 0: no tag
Atom(st, tagged, t, b) == IF tagged = 1 THEN Tagged(st, t, b) ELSE Ok(Put(st, b))
Object(st, t, b) == IF May(st, t) THEN Ok([Put(st, <<t>> \o b) EXCEPT !.n = @ + 1]) ELSE No(st)
Str8(cps) == LET u == Utf8Of(cps) IN NatVar(Len(u)) \o u

RECURSIVE W(_, _)
RECURSIVE WSeq(_, _, _)
RECURSIVE WProps(_, _, _)
WSeq(a, ops, k) == IF a.r # "ok" \/ k > Len(ops) THEN a ELSE WSeq(W(a.s, ops[k]), ops, k + 1)
\* keys and values by turns
WProps(a, ops, k) ==
    IF a.r # "ok" \/ k > Len(ops) THEN a
    ELSE LET key == W([a.s EXCEPT !.con = KeyCon], ops[k])
             free == [key.s EXCEPT !.con = <<>>]
         IN IF key.r # "ok" THEN No(free) ELSE WProps(W(free, ops[k + 1]), ops, k + 2)
End(a, t, b) == IF a.r # "ok" THEN a ELSE Tagged(a.s, t, b)

W(st, op) ==
  LET k == op[1] IN
  CASE k = "tag" -> IF op[2] < 0 THEN Ok(st) ELSE Tagged(st, op[2], <<>>)
    [] k = "constrain" -> Ok([st EXCEPT !.con = op[2]])
    [] k = "free" -> Ok([st EXCEPT !.con = <<>>])
    [] k = "const" -> IF op[2] \in ConstTags THEN Tagged(st, op[2], <<>>) ELSE No(st)
    [] k = "header" -> Tagged(st, 255, <<15>>)
    [] k = "varint" -> IF op[2] = 1 /\ op[3] # <<>> THEN No(st) ELSE Ok(Put(st, VarintOf(op[3])))
    [] k = "zigzag" -> Ok(Put(st, VarintOf(ZigOf(op[2], op[3]))))
    [] k = "double" -> Atom(st, op[2], 78, op[3])
    [] k = "int32" -> IF IsInt32(op[3], op[4]) THEN Atom(st, op[2], 73, VarintOf(ZigOf(op[3], op[4]))) ELSE No(st)
    [] k = "uint32" -> IF IsUint32(op[3], op[4]) THEN Atom(st, op[2], 85, VarintOf(op[4])) ELSE No(st)
    [] k = "bigint" -> Atom(st, op[2], 90, BigOf(op[3], op[4]))
    [] k = "latin1" -> IF \E j \in 1..Len(op[3]) : op[3][j] > 255 THEN No(st)
                       ELSE Atom(st, op[2], 34, NatVar(Len(op[3])) \o op[3])
    [] k = "utf8" -> IF Surrogate(op[3]) THEN No(st) ELSE Atom(st, op[2], 83, Str8(op[3]))
    [] k = "utf16" ->
         LET u == Utf16Of(op[3])  h == NatVar(Len(u))
             even == (Len(st.w) + 1 + Len(h)) % 2 = 0     \* the text starts at an even position
         IN IF Surrogate(op[3]) THEN No(st)
            ELSE IF op[2] = 0 THEN Ok(Put(st, h \o u))
            ELSE IF ~May(st, 99) THEN No(st)
            ELSE Ok(Put(st, (IF even THEN <<>> ELSE <<0>>) \o <<99>> \o h \o u))
    [] k = "prim" -> Object(st, op[2], CASE op[2] = 115 -> Str8(op[3]) [] op[2] = 110 -> op[3]
                                         [] op[2] = 122 -> BigOf(op[3][1], Tail(op[3])) [] OTHER -> <<>>)
    [] k = "regexp" -> Object(st, 82, <<83>> \o Str8(IF op[2] = <<>> THEN <<40, 63, 58, 41>> ELSE op[2]) \o NatVar(op[3]))
    [] k = "date" -> Object(st, 68, op[2])
    [] k = "error" ->      \* name, message, stack, cause
         LET head == (IF op[2] = 0 THEN <<>> ELSE <<ErrTags[op[2]]>>)
                     \o (IF op[3] = <<>> THEN <<>> ELSE <<109, 83>> \o Str8(op[3][1]))
                     \o (IF op[4] = <<>> THEN <<>> ELSE <<115, 83>> \o Str8(op[4][1]))
             a == Object(st, 114, head)
         IN IF a.r # "ok" THEN a
            ELSE IF op[5] = <<>> THEN Ok(Put(a.s, <<46>>))
            ELSE LET own == a.s.n - 1
                     c == Put(a.s, <<99>>)
                     x == W(IF st.f.circular = 1 THEN c ELSE [c EXCEPT !.open = Append(@, own)], op[5][1])
                 IN IF x.r # "ok" THEN x
                    ELSE Ok([Put(x.s, <<46>>) EXCEPT !.open = st.open])
    [] k = "map" -> LET a == Object(st, 59, <<>>)
                    IN IF a.r # "ok" THEN a ELSE End(WSeq(a, op[2], 1), 58, NatVar(Len(op[2])))
    [] k = "set" -> LET a == Object(st, 39, <<>>)
                    IN IF a.r # "ok" THEN a ELSE End(WSeq(a, op[2], 1), 44, NatVar(Len(op[2])))
    [] k = "object" -> LET a == Object(st, 111, <<>>)
                       IN IF a.r # "ok" THEN a ELSE End(WProps(a, op[2], 1), 123, NatVar(Len(op[2]) \div 2))
    [] k = "dense" -> LET a == Object(st, 65, NatVar(Len(op[2])))
                      IN IF a.r # "ok" THEN a
                         ELSE End(WProps(WSeq(a, op[2], 1), op[3], 1), 36, NatVar(Len(op[3]) \div 2) \o NatVar(Len(op[2])))
    [] k = "sparse" -> IF op[2] = 1 \/ MagCmp(op[3], MaxLength) > 0 THEN No(st)
                       ELSE LET a == Object(st, 97, VarintOf(op[3]))
                            IN IF a.r # "ok" THEN a
                               ELSE End(WProps(a, op[4], 1), 64, NatVar(Len(op[4]) \div 2) \o VarintOf(op[3]))
    [] k \in {"refid", "refobj"} ->
         IF op[2] < 0 \/ op[2] >= st.n \/ \E j \in 1..Len(st.open) : st.open[j] = op[2] THEN No(st)
         ELSE Tagged(st, 94, NatVar(op[2]))
    [] k = "buffer" ->     \* data, maximum (<<>>: fixed)
         IF op[3] # <<>> /\ st.f.resizable = 1
         THEN Object(st, 126, NatVar(Len(op[2])) \o NatVar(op[3][1]) \o op[2])
         ELSE Object(st, 66, NatVar(Len(op[2])) \o op[2])
    [] k = "shared" -> Object(st, 117, VarintOf(op[2]))
    [] k = "transfer" -> Object(st, 116, VarintOf(op[2]))
    [] k = "sharedobj" -> Object(st, 112, VarintOf(op[2]))
    [] k = "view" ->       \* type, offset, length, of a resizable buffer, tracking
         IF op[2] = 104 /\ st.f.float16 = 0 THEN No(st)
         ELSE LET fl == IF op[5] = 0 \/ st.f.resizable = 0 THEN 0 ELSE IF op[6] = 1 THEN 3 ELSE 2
              IN Object(st, 86, NatVar(op[2]) \o VarintOf(op[3]) \o (IF fl = 3 THEN <<0>> ELSE VarintOf(op[4])) \o <<fl>>)
    [] k = "host" -> LET a == Object(st, 92, <<>>) IN IF a.r # "ok" THEN a ELSE WSeq(a, op[2], 1)

--------------------------------------------------------------------------------
Tags == {255, 0, 63, 45, 95, 48, 84, 70, 73, 85, 78, 90, 83, 34, 99, 94, 111, 123, 65, 36, 97, 64,
         68, 121, 120, 110, 122, 115, 82, 59, 58, 39, 44, 66, 126, 116, 86, 117, 112, 119, 109, 92, 114}
        \cup {77, 98, 105, 102, 101, 100, 108, 76, 35, 103, 71, 72, 75, 107}   \* reserved by browsers

Yes(st, v) == [s |-> st, r |-> "ok", v |-> v, amb |-> FALSE]
Nope(st) == [s |-> st, r |-> "refused", v |-> <<>>, amb |-> FALSE]
Unsure(st) == [Nope(st) EXCEPT !.amb = TRUE]
Move(st, p) == [st EXCEPT !.pos = p - 1]        \* p: 1-based, as in V8Wire
P(st) == st.pos + 1
NewId(st, p) == [Move(st, p) EXCEPT !.n = @ + 1]
Bits(c, f) == IF c THEN 1 ELSE 0

\* the tag at the position after padding, if allowed: [ok, t, p]
TagAt(st, con) ==
  LET p == SkipPad(st.b, P(st)) t == st.b[p]
  IN IF p > Len(st.b) \/ t \notin Tags \/ (con # <<>> /\ ~\E k \in 1..Len(con) : con[k] = t)
     THEN [ok |-> FALSE, t |-> 0, p |-> p] ELSE [ok |-> TRUE, t |-> t, p |-> p]
Rest(st, tagged, t) == IF tagged = 0 THEN [ok |-> TRUE, p |-> P(st)]
                       ELSE LET x == TagAt(st, <<t>>) IN [ok |-> x.ok, p |-> x.p + 1]

RStr(st, tag, p) == LET s == ReadStr(st.b, tag, p)
                    IN IF s.wide THEN Unsure(st) ELSE IF s.ok THEN Yes(Move(st, s.pos), StrTok(s.cps)) ELSE Nope(st)
RU32(st, p) == LET v == U32(st.b, p) IN IF v.n > 5 THEN Unsure(st)
               ELSE IF v.ok THEN Yes(Move(st, v.pos), IntTok(0, v.m)) ELSE Nope(st)
RI32(st, p) == LET v == U32(st.b, p) z == ZigZag(v.m)
               IN IF v.n > 5 THEN Unsure(st) ELSE IF v.ok THEN Yes(Move(st, v.pos), IntTok(z.neg, z.m)) ELSE Nope(st)
RDouble(st, p) == IF ~Avail(st.b, p, 8) THEN Nope(st)
                  ELSE Yes(Move(st, p + 8), DblTok(SubSeq(st.b, p, p + 7)))
RBig(st, p) == LET g == ReadBig(st.b, p)
               IN IF g.amb THEN Unsure(st) ELSE IF g.ok THEN Yes(Move(st, g.pos), IntTok(g.neg, g.m)) ELSE Nope(st)
WithId(a) == IF a.r # "ok" THEN a ELSE [a EXCEPT !.s.n = @ + 1, !.v = <<a.s.n>> \o @]
RPrim(st, t, p) ==
  WithId(CASE t = 121 -> Yes(Move(st, p), TRU) [] t = 120 -> Yes(Move(st, p), FALS)
           [] t = 110 -> RDouble(st, p) [] t = 122 -> RBig(st, p) [] OTHER -> RStr(st, 83, p))
RRegExp(st, p) ==
  LET s == InlineStr(st.b, [strict |-> FALSE], p)  v == VI(st.b, s.pos)  n == MagNat(v.m)
      src == IF s.cps = <<>> THEN <<40, 63, 58, 41>> ELSE s.cps
  IN IF s.amb THEN Unsure(st) ELSE IF ~s.ok \/ ~v.ok THEN Nope(st)
     ELSE IF n >= 512 \/ (Bit(n, 4) /\ Bit(n, 8)) THEN Nope(st)
     ELSE IF v.n > 5 THEN Unsure(st)
     ELSE WithId(Yes(Move(st, v.pos), <<82>> \o StrTok(src) \o <<n>>))
RDate(st, p) ==
  IF ~Avail(st.b, p, 8) THEN Nope(st)
  ELSE LET d == SubSeq(st.b, p, p + 7)  i == DInteger(d)
           big == ~DFinite(d) \/ DExp(d) >= 1076
       IN IF big \/ (i.int /\ MagCmp(i.m, IF i.neg = 1 THEN MinMs ELSE MaxMs) > 0) THEN Nope(st)
          ELSE IF ~i.int \/ (i.neg = 1 /\ MagCmp(i.m, FirstDay) > 0) THEN Unsure(st)
          ELSE WithId(Yes(Move(st, p + 8), <<68>> \o IntTok(i.neg, i.m)))
RBuffer(st, t, p) ==
  LET v == U32(st.b, p)  n == MagNat(v.m)  x == U32(st.b, v.pos)
      d == IF t = 126 THEN x.pos ELSE v.pos
  IN IF v.n > 5 \/ (t = 126 /\ v.ok /\ x.n > 5) THEN Unsure(st)
     ELSE IF ~v.ok THEN Nope(st)
     ELSE IF t \in {117, 116} THEN WithId(Yes(Move(st, v.pos), <<t>> \o MagTok(v.m)))
     ELSE IF t = 126 /\ (~x.ok \/ MagCmp(x.m, v.m) < 0) THEN Nope(st)
     ELSE IF ~Avail(st.b, d, n) THEN Nope(st)
     ELSE WithId(Yes(Move(st, d + n), <<66, IF t = 126 THEN 1 ELSE 0>> \o (IF t = 126 THEN MagTok(x.m) ELSE <<0>>)
                                      \o <<n>> \o SubSeq(st.b, d, d + n - 1)))
RView(st, p) ==
  LET tv == VI(st.b, p)  t == MagNat(tv.m)  ov == U32(st.b, tv.pos)  lv == U32(st.b, ov.pos)
      hasF == st.ver >= 14  fv == VI(st.b, lv.pos)
      fl == IF hasF /\ fv.m # <<>> THEN fv.m[1] % 4 ELSE 0
      wide == tv.n > 1 \/ ov.n > 5 \/ lv.n > 5 \/ (hasF /\ (fv.n > 1 \/ (fv.m # <<>> /\ fv.m[1] > 3)))
  IN IF ~tv.ok \/ ViewSize(t) = 0 THEN IF wide THEN Unsure(st) ELSE Nope(st)
     ELSE IF wide THEN Unsure(st)
     ELSE IF ~ov.ok \/ ~lv.ok \/ (hasF /\ ~fv.ok) THEN Nope(st)
     ELSE Yes(NewId(st, IF hasF THEN fv.pos ELSE lv.pos),
              <<86, t>> \o MagTok(ov.m) \o (IF fl % 2 = 1 THEN <<99>> ELSE MagTok(lv.m)))
RRef(st, p) == LET v == VI(st.b, p)  i == MagNat(v.m)
               IN IF VWide(v) THEN Unsure(st) ELSE IF ~v.ok \/ i >= st.n THEN Nope(st)
                  ELSE Yes(Move(st, v.pos), <<94, i>>)

\* values inside others; a container is its id, what it holds, and its counts
RECURSIVE RVal(_, _, _)
RECURSIVE RItems(_, _, _, _)
RECURSIVE RProps(_, _, _)
RECURSIVE RElems(_, _)
Then(a, F(_)) == IF a.r # "ok" THEN a
                 ELSE LET c == F(a.s) IN IF c.r # "ok" THEN c ELSE [c EXCEPT !.v = a.v \o @]
Count(st, p, n, toks) ==      \* the count that ends a container
  LET v == VI(st.b, p) IN IF VWide(v) THEN Unsure(st) ELSE IF ~v.ok \/ v.m # NatMag(n) THEN Nope(st)
                          ELSE Yes(Move(st, v.pos), toks)
\* each: values per step; n: values so far
RItems(st, endt, each, n) ==
  LET x == TagAt(st, <<>>)
  IN IF ~x.ok THEN Nope(st)
     ELSE IF x.t = endt THEN Count(st, x.p + 1, n, <<0, n>>)
     ELSE LET a == RVal(Move(st, x.p + 1), x.t, x.p + 1)
              F(s) == RVal(s, 0, 0)
              b == IF each = 2 THEN Then(a, F) ELSE a
              G(s) == RItems(s, endt, each, n + each)
          IN Then(b, G)
RProps(st, endt, n) ==
  LET x == TagAt(st, <<>>)
  IN IF ~x.ok THEN Nope(st)
     ELSE IF x.t = endt THEN Count(st, x.p + 1, n, <<0, n>>)
     ELSE IF x.t \notin KeyTags THEN Nope(st)
     ELSE LET a == RVal(Move(st, x.p + 1), x.t, x.p + 1)
              F(s) == RVal(s, 0, 0)
              G(s) == RProps(s, endt, n + 1)
          IN Then(Then(a, F), G)
RElems(st, n) == IF n = 0 THEN Yes(st, <<>>)
                 ELSE LET G(s) == RElems(s, n - 1) IN Then(RVal(st, 0, 0), G)
RMap(st, p) == LET G(s) == RItems(s, 58, 2, 0) IN Then(Yes(NewId(st, p), <<59, st.n>>), G)
RSet(st, p) == LET G(s) == RItems(s, 44, 1, 0) IN Then(Yes(NewId(st, p), <<39, st.n>>), G)
RObject(st, p) == LET G(s) == RProps(s, 123, 0) IN Then(Yes(NewId(st, p), <<111, st.n>>), G)
Length(st, m) == LET v == VI(st.b, P(st)) IN IF VWide(v) THEN Unsure(st) ELSE IF ~v.ok \/ v.m # m THEN Nope(st)
                                             ELSE Yes(Move(st, v.pos), <<>>)
RDense(st, p) ==
  LET v == VI(st.b, p)  n == MagNat(v.m)
      E(s) == RElems(s, n)  F(s) == RProps(s, 36, 0)  G(s) == Length(s, v.m)
  IN IF VWide(v) THEN Unsure(st) ELSE IF ~v.ok \/ n > Len(st.b) THEN Nope(st)
     ELSE Then(Then(Then(Yes(NewId(st, v.pos), <<65, st.n>> \o MagTok(v.m)), E), F), G)
RSparse(st, p) ==
  LET v == VI(st.b, p)  F(s) == RProps(s, 64, 0)  G(s) == Length(s, v.m)
  IN IF VWide(v) THEN Unsure(st) ELSE IF ~v.ok THEN Nope(st)
     ELSE Then(Then(Yes(NewId(st, v.pos), <<97, st.n>> \o MagTok(v.m)), F), G)
RError(st, p) ==
  LET o == [strict |-> FALSE]
      e1 == ETag(st.b, p)  nm == ErrIndex(e1.t)
      e2 == IF nm # 0 THEN ETag(st.b, e1.pos) ELSE e1
      hasM == e2.t = 109  m == InlineStr(st.b, o, e2.pos)
      e3 == IF hasM THEN ETag(st.b, m.pos) ELSE e2
      hasS == e3.t = 115  s == InlineStr(st.b, o, e3.pos)
      e4 == IF hasS THEN ETag(st.b, s.pos) ELSE e3
      over == e1.amb \/ e2.amb \/ (hasM /\ (e3.amb \/ m.amb)) \/ (hasS /\ (e4.amb \/ s.amb))
      id == st.n
      Tok(has, x) == IF has THEN StrTok(x.cps) ELSE <<0>>
      s1 == NewId(st, e4.pos)
      head == <<114, id, nm>> \o Tok(hasM, m)
  IN IF over THEN Unsure(st)
     ELSE IF ~e1.ok \/ ~e2.ok \/ (hasM /\ (~m.ok \/ ~e3.ok)) \/ (hasS /\ (~s.ok \/ ~e4.ok)) THEN Nope(st)
     ELSE IF e4.t = 46 THEN Yes(s1, head \o Tok(hasS, s) \o <<0>>)
     ELSE IF e4.t # 99 THEN Nope(st)
     ELSE LET c == RVal(s1, 0, 0)
              e5 == ETag(st.b, P(c.s))  late == ~hasS /\ e5.t = 115
              s6 == InlineStr(st.b, o, e5.pos)
              e7 == IF late THEN ETag(st.b, s6.pos) ELSE e5
          IN IF c.r # "ok" THEN c
             ELSE IF e5.amb \/ (late /\ (e7.amb \/ s6.amb)) THEN Unsure(st)
             ELSE IF ~e5.ok \/ (late /\ (~s6.ok \/ ~e7.ok)) \/ e7.t # 46 THEN Nope(st)
             ELSE Yes(Move(c.s, e7.pos), head \o Tok(hasS \/ late, IF late THEN s6 ELSE s) \o c.v)
\* t = 0: read the tag first
RVal(st, t0, p0) ==
  LET x == IF t0 = 0 THEN TagAt(st, <<>>) ELSE [ok |-> TRUE, t |-> t0, p |-> p0 - 1]
      t == x.t  p == x.p + 1
  IN IF ~x.ok THEN Nope(st)
     ELSE CASE t \in ConstTags -> Yes(Move(st, p), <<t>>)
            [] t = 73 -> RI32(st, p) [] t = 85 -> RU32(st, p) [] t = 78 -> RDouble(st, p) [] t = 90 -> RBig(st, p)
            [] t \in StrTags -> RStr(st, t, p) [] t \in PrimTags -> RPrim(st, t, p)
            [] t = 82 -> RRegExp(st, p) [] t = 68 -> RDate(st, p) [] t = 114 -> RError(st, p)
            [] t = 59 -> RMap(st, p) [] t = 39 -> RSet(st, p) [] t = 111 -> RObject(st, p)
            [] t = 65 -> RDense(st, p) [] t = 97 -> RSparse(st, p) [] t = 94 -> RRef(st, p)
            [] t \in {66, 126, 117, 116} -> RBuffer(st, t, p)
            [] OTHER -> Nope(st)

Read(st, op) ==
  LET k == op[1]
      a(t, F(_, _)) == LET h == Rest(st, op[2], t) IN IF h.ok THEN F(st, h.p) ELSE Nope(st)
      any(con, F(_, _, _)) == LET x == TagAt(st, con) IN IF x.ok THEN F(st, x.t, x.p + 1) ELSE Nope(st)
  IN
  CASE k = "tag" -> LET x == TagAt(st, op[2]) IN
                    IF ~x.ok THEN Nope(st) ELSE Yes(Move(st, IF op[3] = 1 THEN x.p + 1 ELSE x.p), <<x.t>>)
    [] k = "peak" -> Yes(st, IF st.pos < Len(st.b) /\ st.b[P(st)] \in Tags THEN <<st.b[P(st)]>> ELSE <<-1>>)
    [] k = "eof" -> Yes(st, <<IF st.pos = Len(st.b) THEN 1 ELSE 0>>)
    [] k = "padding" -> LET p == SkipPad(st.b, P(st)) IN IF p > Len(st.b) THEN Nope(st) ELSE Yes(Move(st, p), <<>>)
    [] k = "bytes" -> IF Avail(st.b, P(st), op[2]) THEN Yes(Move(st, P(st) + op[2]), SubSeq(st.b, P(st), P(st) + op[2] - 1))
                      ELSE Nope(st)
    [] k = "varint" -> LET v == VI(st.b, P(st)) IN IF v.ok THEN Yes(Move(st, v.pos), IntTok(0, v.m)) ELSE Nope(st)
    [] k = "zigzag" -> LET v == VI(st.b, P(st)) z == ZigZag(v.m)
                       IN IF v.ok THEN Yes(Move(st, v.pos), IntTok(z.neg, z.m)) ELSE Nope(st)
    [] k = "header" -> LET h == Rest(st, 1, 255)  v == VI(st.b, h.p)
                       IN IF ~h.ok \/ ~v.ok \/ v.m \notin {<<13>>, <<14>>, <<15>>} THEN Nope(st)
                          ELSE Yes([Move(st, v.pos) EXCEPT !.ver = v.m[1]], <<v.m[1]>>)
    [] k = "double" -> a(78, RDouble) [] k = "int32" -> a(73, RI32) [] k = "uint32" -> a(85, RU32)
    [] k = "bigint" -> a(90, RBig)
    [] k = "latin1" -> LET F(s, p) == RStr(s, 34, p) IN a(34, F)
    [] k = "utf8" -> LET F(s, p) == RStr(s, 83, p) IN a(83, F)
    [] k = "utf16" -> LET F(s, p) == RStr(s, 99, p) IN a(99, F)
    [] k = "prim" -> IF op[2] = 0 THEN any(<<121, 120, 110, 122, 115>>, RPrim) ELSE RPrim(st, op[2], P(st))
    [] k = "regexp" -> a(82, RRegExp) [] k = "date" -> a(68, RDate) [] k = "error" -> a(114, RError)
    [] k = "map" -> a(59, RMap) [] k = "set" -> a(39, RSet) [] k = "object" -> a(111, RObject)
    [] k = "dense" -> a(65, RDense) [] k = "sparse" -> a(97, RSparse) [] k = "ref" -> a(94, RRef)
    [] k = "buffer" -> IF op[2] = 0 THEN any(<<66, 126, 117, 116>>, RBuffer) ELSE RBuffer(st, op[2], P(st))
    [] k = "view" -> a(86, RView)
    [] k = "sharedobj" -> LET F(s, p) == WithId(RU32(s, p)) IN a(112, F)
    [] k = "host" -> LET h == Rest(st, op[2], 92)     \* the reader of the object takes op[3] bytes
                     IN IF ~h.ok \/ ~Avail(st.b, h.p, op[3]) THEN Nope(st)
                        ELSE Yes(NewId(st, h.p + op[3]), SubSeq(st.b, h.p, h.p + op[3] - 1))
    [] k = "value" -> RVal(st, 0, 0)
================================================================================
