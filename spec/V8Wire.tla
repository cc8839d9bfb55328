------------------------------- MODULE V8Wire -------------------------------
(***************************************************************************)
(* The V8 serialization format (versions 13-15) as a pushdown machine that *)
(* reads one tag per step.                                                 *)
(*                                                                         *)
(* Machine state `st':                                                     *)
(*   status  "hdr" | "run" | "ok" | "bad"                                  *)
(*   pos     1-based index of the next unread byte                         *)
(*   ver     format version of the header                                  *)
(*   ids     the object log: ids[i+1] is the value with serialized id i    *)
(*   heap    nodes of the value graph built so far                         *)
(*   stack   enclosing containers being read (innermost last)              *)
(*   root    the finished value                                            *)
(*   amb     the stream used something on which readers legitimately differ*)
(*           (V8 and this library disagree, or the format does not say)    *)
(*   uses    optional serialization features the stream relies on          *)
(*                                                                         *)
(* Values are self-delimiting integer sequences ("tokens") headed by the   *)
(* ASCII code of a V8 tag; references to heap nodes are <<94, h>>.         *)
(*                                                                         *)
(* Options `o':                                                            *)
(*   mode    "js": the JavaScript value (numbers are one type, BigInts and *)
(*                 primitive wrapper objects are distinct)                 *)
(*           "py": what v8serialize.loads() documents as its Python image  *)
(*           "rt": the Python image after a round trip: numbers are one    *)
(*                 type again, wrapper objects are unwrapped               *)
(*   flat    the canonical form ignores identity (acyclic values only)     *)
(*   strict  reject what V8 itself would not read or never writes          *)
(*   opt     (may be absent) the customisations loads() was called with:   *)
(*           const   <<tag, token>> pairs: values representing constants   *)
(*           over    the same, by tag_readers overrides (take precedence)  *)
(*           neg     1: an override that negates every int32               *)
(*           obj arr map set err date: 0 or the number of the customised   *)
(*                   representation of that type (2 and 3 are built-in     *)
(*                   types which cannot represent every value of it)       *)
(*           custom  1: host objects are read by a custom deserializer     *)
(***************************************************************************)
EXTENDS Mag, Unicode, FiniteSets, TLC

UNDEF == <<95>>   NULL == <<48>>   TRU == <<84>>   FALS == <<70>>   HOLE == <<45>>
REF(h) == <<94, h>>
IsRef(v) == v[1] = 94
IntTok(neg, m) == <<73, IF m = <<>> THEN 0 ELSE neg, Len(m)>> \o m
BigTok(neg, m) == <<90, IF m = <<>> THEN 0 ELSE neg, Len(m)>> \o m
DblTok(b) == <<78>> \o CanonDouble(b)
StrTok(cps) == <<34, Len(cps)>> \o cps
MagTok(m) == <<Len(m)>> \o m

NegZero == <<0, 0, 0, 0, 0, 0, 0, 128>>

\* The token for a double: in "js" mode the integer form wherever possible.
NumTok(o, b) ==
  IF o.mode # "py" /\ b # NegZero /\ DFinite(b) /\ DExp(b) < 1076 /\ DInteger(b).int
  THEN LET d == DInteger(b) IN IntTok(d.neg, d.m)
  ELSE DblTok(b)
\* |m| < 2^53
Safe(m) == Len(m) < 7 \/ (Len(m) = 7 /\ m[7] < 32)
BigIntTok(o, neg, m) ==
  IF o.mode = "js" \/ (o.mode = "rt" /\ ~Safe(m)) THEN BigTok(neg, m) ELSE IntTok(neg, m)

\* Same-value-zero representative of a Map key / Set element.
SvzKey(v) ==
  IF v[1] # 78 THEN v
  ELSE LET b == Tail(v) d == DInteger(b)
       IN IF d.int THEN IntTok(d.neg, d.m) ELSE v

---------------------------------------------------------------------------
(* Object property keys *)
IsDigits(c) == c # <<>> /\ \A i \in 1..Len(c) : c[i] >= 48 /\ c[i] <= 57
IsIndexMag(m) == MagCmp(m, MaxIndex) <= 0
IntKey(neg, m) ==
  IF neg = 0 \/ m = <<>>
  THEN IF IsIndexMag(m) THEN IntTok(0, m) ELSE StrTok(MagDecimal(m))
  ELSE StrTok(<<45>> \o MagDecimal(m))
StrKey(c) ==
  IF IsDigits(c) /\ Len(c) <= 10 /\ (c[1] # 48 \/ Len(c) = 1) /\ IsIndexMag(ParseDec(c))
  THEN IntTok(0, ParseDec(c))
  ELSE StrTok(c)
\* Keys whose text depends on number formatting are not decided here.
KeyAmb(v) == v[1] = 78 /\ ~(DInteger(Tail(v)).int /\ DExp(Tail(v)) < 1076)
PropKey(v) ==
  CASE v[1] = 34 -> StrKey(SubSeq(v, 3, Len(v)))
    [] v[1] = 73 -> IntKey(v[2], SubSeq(v, 4, Len(v)))
    [] v[1] = 78 -> LET d == DInteger(Tail(v)) IN
                    IF d.int THEN IntKey(d.neg, d.m) ELSE StrTok(<<63>>)
    [] OTHER -> StrTok(<<63>>)
IsIndexKey(k) == k[1] = 73
KeyMag(k) == SubSeq(k, 4, Len(k))

---------------------------------------------------------------------------
(* Reading primitives of the byte stream *)
RECURSIVE VEnd(_, _)
VEnd(b, i) == IF i > Len(b) THEN 0 ELSE IF b[i] < 128 THEN i ELSE VEnd(b, i + 1)
RECURSIVE VFold(_, _, _, _)
VFold(b, i, lo, m) == IF i < lo THEN m ELSE VFold(b, i - 1, lo, MulAdd(m, 128, b[i] % 128))
\* varint at pos: [ok, m, pos (after), n (bytes)]
VI(b, pos) ==
  LET e == VEnd(b, pos)
  IN IF e = 0 THEN [ok |-> FALSE, m |-> <<>>, pos |-> Len(b) + 1, n |-> 0]
     ELSE IF e = pos THEN [ok |-> TRUE, m |-> NatMag(b[pos]), pos |-> pos + 1, n |-> 1]
     ELSE [ok |-> TRUE, m |-> VFold(b, e, pos, <<>>), pos |-> e + 1, n |-> e - pos + 1]
\* A varint outside uint32, or padded beyond five bytes: readers differ.
VWide(v) == Len(v.m) > 4 \/ v.n > 5
U32(b, pos) == LET v == VI(b, pos) IN [v EXCEPT !.ok = v.ok /\ Len(v.m) <= 4]
ZigZag(m) == LET d == DivMod(m, 2)
             IN IF d.r = 0 THEN [neg |-> 0, m |-> d.q] ELSE [neg |-> 1, m |-> AddNat(d.q, 1)]

RECURSIVE SkipPad(_, _)
SkipPad(b, i) == IF i <= Len(b) /\ b[i] = 0 THEN SkipPad(b, i + 1) ELSE i

\* byte count n (Nat, saturated) available from pos
Avail(b, pos, n) == n <= Len(b) - pos + 1

StrTags == {34, 99, 83}                     \* " c S
KeyTags == {73, 85, 78, 110, 34, 99, 83, 115}  \* I U N n " c S s

\* String body after its tag: [ok, cps, pos, odd]
ReadStr(b, tag, pos) ==
  LET v == VI(b, pos)
      n == MagNat(v.m)
      e == v.pos + n
      bad == [ok |-> FALSE, cps |-> <<>>, pos |-> pos, odd |-> FALSE, wide |-> FALSE]
  IN IF ~v.ok \/ ~Avail(b, v.pos, n) THEN bad
     ELSE LET d == CASE tag = 34 -> Latin1(b, v.pos, e)
                     [] tag = 99 -> Utf16le(b, v.pos, e)
                     [] OTHER    -> Utf8(b, v.pos, e)
          IN [ok |-> d.ok, cps |-> d.cps, pos |-> e,
              odd |-> tag = 99 /\ v.pos % 2 = 0,   \* 0-based offset of the text is odd
              wide |-> VWide(v)]

---------------------------------------------------------------------------
(* Machine bookkeeping *)
Start == [status |-> "hdr", pos |-> 1, ver |-> 0, ids |-> <<>>, heap |-> <<>>,
          stack |-> <<>>, root |-> <<>>, amb |-> FALSE, uses |-> {}, why |-> ""]

Bad(st, why) == [st EXCEPT !.status = "bad", !.why = why]
At(st, p) == [st EXCEPT !.pos = p]
Amb(st, c) == IF c THEN [st EXCEPT !.amb = TRUE] ELSE st
\* Something this library tolerates but V8 neither writes nor reads.
Tol(o, st, c, why) ==
  IF ~c THEN st ELSE IF o.strict THEN Bad(st, why) ELSE [st EXCEPT !.amb = TRUE]
Use(st, c, f) == IF c THEN [st EXCEPT !.uses = @ \cup {f}] ELSE st

Alloc(st, node) ==     \* new heap node which takes the next serialized id
  LET h == Len(st.heap) + 1
  IN [st EXCEPT !.heap = Append(@, node), !.ids = Append(@, REF(h))]
NewRef(st) == REF(Len(st.heap))
Push(st, f) == [st EXCEPT !.stack = Append(@, f)]
Top(st) == st.stack[Len(st.stack)]
SetTop(st, f) == [st EXCEPT !.stack[Len(st.stack)] = f]
Pop(st) == [st EXCEPT !.stack = SubSeq(@, 1, Len(@) - 1)]

RECURSIVE FindKey(_, _, _)
FindKey(props, k, i) ==
  IF i > Len(props) THEN 0 ELSE IF props[i].k = k THEN i ELSE FindKey(props, k, i + 1)
PutProp(props, k, v) ==
  LET i == FindKey(props, k, 1)
  IN IF v = HOLE
     THEN IF i = 0 THEN props ELSE SubSeq(props, 1, i - 1) \o SubSeq(props, i + 1, Len(props))
     ELSE IF i = 0 THEN Append(props, [k |-> k, v |-> v])
     ELSE [props EXCEPT ![i].v = v]
PutNode(node, k, v) ==
  LET n1 == [node EXCEPT !.props = PutProp(@, k, v)]
  IN IF node.kind = "arr" /\ IsIndexKey(k)
     THEN [n1 EXCEPT !.len = MagMax(@, AddNat(KeyMag(k), 1))] ELSE n1

EndOf(kind) == CASE kind = "o" -> 123 [] kind = "a" -> 64 [] OTHER -> 36   \* { @ $
PropsFrame(h, kind, len) == [f |-> "props", h |-> h, kind |-> kind, len |-> len,
                             cnt |-> 0, key |-> <<>>]

---------------------------------------------------------------------------
(* Customisations of loads() *)
HasOpt(o) == "opt" \in DOMAIN o
OptOf(o, kind) == IF HasOpt(o) /\ kind \in DOMAIN o.opt THEN o.opt[kind] ELSE 0
RECURSIVE PairOf(_, _, _)
PairOf(ps, t, i) == IF i > Len(ps) THEN <<>>
                    ELSE IF ps[i][1] = t THEN ps[i][2] ELSE PairOf(ps, t, i + 1)
ConstTok(o, t) ==
  IF ~HasOpt(o) THEN <<t>>
  ELSE LET a == PairOf(o.opt.over, t, 1) b == PairOf(o.opt.const, t, 1)
       IN IF a # <<>> THEN a ELSE IF b # <<>> THEN b ELSE <<t>>

\* What a built-in dict or set cannot tell apart is left open.
PlainKey(k) == k[1] = 34 /\ k[2] > 0 /\ k[3] >= 97 /\ k[3] <= 122
PlainProps(n) == \A i \in 1..Len(n.props) : PlainKey(n.props[i].k)
PlainArray(n) ==
  LET c == MagNat(n.len)
  IN /\ n.dense /\ c <= Len(n.props)
     /\ \A i \in 1..Len(n.props) :
          IF i <= c THEN n.props[i].k = IntTok(0, NatMag(i - 1)) ELSE PlainKey(n.props[i].k)
PlainItem(k) == k[1] \in {34, 73, 95, 48, 200}
Plain(o, n) ==
  CASE n.kind = "obj" -> OptOf(o, "obj") < 2 \/ PlainProps(n)
    [] n.kind = "arr" -> OptOf(o, "arr") < 2 \/ PlainArray(n)
    [] n.kind = "set" -> OptOf(o, "set") < 3 \/ Len(n.items) <= 1   \* unordered
    [] OTHER -> TRUE
Closed(o, st, h) == IF HasOpt(o) THEN Amb(st, ~Plain(o, st.heap[h])) ELSE st

---------------------------------------------------------------------------
(* Hand a finished value to the innermost enclosing container. *)
Deliver(o, st, v) ==
  IF st.stack = <<>> THEN
    LET s == Tol(o, st, v = HOLE, "hole at top level")
    IN IF s.status = "bad" THEN s ELSE [s EXCEPT !.status = "ok", !.root = v]
  ELSE
  LET f == Top(st) IN
  CASE f.f = "elems" ->
         LET s1 == [st EXCEPT !.heap[f.h] = PutNode(@, IntTok(0, NatMag(f.i)), v)]
         IN IF f.i + 1 = f.n
            THEN SetTop(s1, PropsFrame(f.h, "A", f.len))
            ELSE SetTop(s1, [f EXCEPT !.i = @ + 1])
    [] f.f = "props" ->
         IF f.key = <<>>
         THEN Amb(SetTop(st, [f EXCEPT !.key = PropKey(v)]), KeyAmb(v))
         ELSE LET s1 == [st EXCEPT !.heap[f.h] = PutNode(@, f.key, v)]
              IN Tol(o, SetTop(s1, [f EXCEPT !.key = <<>>, !.cnt = @ + 1]),
                     v = HOLE, "hole property")
    [] f.f = "map" ->
         IF f.key = <<>>
         THEN Tol(o, SetTop(Amb(st, OptOf(o, "map") >= 2 /\ ~PlainItem(v)),
                            [f EXCEPT !.key = v]), v = HOLE, "hole key")
         ELSE LET k == SvzKey(f.key)
                  i == FindKey(st.heap[f.h].items, k, 1)
                  e == [k |-> k, key |-> f.key, v |-> v]
                  s1 == IF i = 0
                        THEN [st EXCEPT !.heap[f.h].items = Append(@, e)]
                        ELSE Amb([st EXCEPT !.heap[f.h].items[i] = e],
                                 st.heap[f.h].items[i].key # f.key)
                  s2 == Tol(o, s1, i # 0, "duplicate map key")
                  s3 == SetTop(s2, [f EXCEPT !.key = <<>>, !.cnt = @ + 2])
              IN IF i = 0 \/ o.strict \/ st.heap[f.h].items[i].key # f.key
                 THEN Tol(o, s3, v = HOLE, "hole value")
                 ELSE Tol(o, [s3 EXCEPT !.amb = st.amb], v = HOLE, "hole value")
    [] f.f = "set" ->
         LET k == SvzKey(v)
             i == FindKey(st.heap[f.h].items, k, 1)
             s1 == IF i = 0
                   THEN [st EXCEPT !.heap[f.h].items = Append(@, [k |-> k, key |-> v])]
                   ELSE IF o.strict THEN Bad(st, "duplicate set element")
                   ELSE Amb(st, st.heap[f.h].items[i].key # v)
         IN IF s1.status = "bad" THEN s1
            ELSE Tol(o, SetTop(Amb(s1, OptOf(o, "set") >= 2 /\ ~PlainItem(v)),
                               [f EXCEPT !.cnt = @ + 1]), v = HOLE, "hole element")
    [] f.f = "cause" ->
         Tol(o, SetTop([st EXCEPT !.heap[f.h].cause = v], [f EXCEPT !.f = "errend"]),
             v = HOLE, "hole cause")

---------------------------------------------------------------------------
(* One operator per kind of step.  p is the position of the tag byte t.    *)

Header(b, o, st) ==
  LET p == SkipPad(b, 1)
      v == VI(b, p + 1)
  IN IF p > Len(b) \/ b[p] # 255 THEN Bad(st, "no header")
     ELSE IF ~v.ok THEN Bad(st, "truncated header")
     ELSE IF v.m \notin {<<13>>, <<14>>, <<15>>} THEN Bad(st, "unsupported version")
     ELSE IF o.strict /\ (p # 1 \/ v.n # 1) THEN Bad(st, "non-canonical header")
     ELSE Amb([st EXCEPT !.status = "run", !.pos = v.pos, !.ver = v.m[1]], p # 1)

Const(o, st, t, p) ==
  LET v == ConstTok(o, t)
      \* a hole is only a value in dense arrays
      odd == t = 45 /\ v # HOLE /\ (st.stack = <<>> \/ Top(st).f # "elems")
  IN Deliver(o, Amb(At(st, p + 1), odd), v)

Int32(b, o, st, p) ==
  LET v == U32(b, p + 1) z == ZigZag(v.m)
  IN IF ~v.ok THEN Bad(st, "bad int32")
     ELSE Deliver(o, Amb(At(st, v.pos), v.n > 5),
                  IntTok(IF OptOf(o, "neg") = 1 THEN 1 - z.neg ELSE z.neg, z.m))
Uint32(b, o, st, p) ==
  LET v == U32(b, p + 1)
  IN IF ~v.ok THEN Bad(st, "bad uint32")
     ELSE Deliver(o, Amb(At(st, v.pos), v.n > 5), IntTok(0, v.m))
Double(b, o, st, p) ==
  IF ~Avail(b, p + 1, 8) THEN Bad(st, "truncated double")
  ELSE Deliver(o, At(st, p + 9), NumTok(o, SubSeq(b, p + 1, p + 8)))

\* BigInt body: [ok, neg, m, pos, amb]
ReadBig(b, pos) ==
  LET v == VI(b, pos)
      d == DivMod(v.m, 2)
      n == MagNat(d.q)
  IN IF ~v.ok THEN [ok |-> FALSE, neg |-> 0, m |-> <<>>, pos |-> pos, amb |-> FALSE]
     ELSE IF VWide(v) \/ (Len(v.m) = 4 /\ v.m[4] >= 128)
          THEN [ok |-> FALSE, neg |-> 0, m |-> <<>>, pos |-> pos, amb |-> TRUE]
     ELSE IF ~Avail(b, v.pos, n)
          THEN [ok |-> FALSE, neg |-> 0, m |-> <<>>, pos |-> pos, amb |-> FALSE]
     ELSE [ok |-> TRUE, neg |-> d.r, m |-> Trim(SubSeq(b, v.pos, v.pos + n - 1)),
           pos |-> v.pos + n, amb |-> FALSE]
BigInt(b, o, st, p) ==
  LET r == ReadBig(b, p + 1)
  IN IF ~r.ok THEN Amb(Bad(st, "bad bigint"), r.amb)
     ELSE Deliver(o, At(st, r.pos), BigIntTok(o, r.neg, r.m))

Str(b, o, st, t, p) ==
  LET s == ReadStr(b, t, p + 1)
  IN IF ~s.ok THEN Bad(st, "bad string")
     ELSE IF o.strict /\ s.odd THEN Bad(st, "misaligned two-byte string")
     ELSE Deliver(o, Amb(At(st, s.pos), s.wide), StrTok(s.cps))

\* Primitive wrapper objects take an id.  loads() unwraps them.
PrimDone(o, st, v, pos, amb) ==
  LET inKey == st.stack # <<>> /\ Top(st).f = "props" /\ Top(st).key = <<>>
      s0 == Tol(o, Amb(At(st, pos), amb), inKey, "wrapper object as key")
  IN IF s0.status = "bad" THEN s0
     ELSE IF o.mode # "js" \/ inKey
          THEN Deliver(o, [s0 EXCEPT !.ids = Append(@, v)], v)
     ELSE LET s1 == Alloc(s0, [kind |-> "prim", v |-> v])
          IN Deliver(o, s1, NewRef(s1))
Prim(b, o, st, t, p) ==
  CASE t = 121 -> PrimDone(o, st, TRU, p + 1, FALSE)
    [] t = 120 -> PrimDone(o, st, FALS, p + 1, FALSE)
    [] t = 110 -> IF ~Avail(b, p + 1, 8) THEN Bad(st, "truncated number object")
                  ELSE PrimDone(o, st, NumTok(o, SubSeq(b, p + 1, p + 8)), p + 9, FALSE)
    [] t = 122 -> LET r == ReadBig(b, p + 1)
                  IN IF ~r.ok THEN Amb(Bad(st, "bad bigint object"), r.amb)
                     ELSE PrimDone(o, st, BigIntTok(o, r.neg, r.m), r.pos, FALSE)
    [] t = 115 -> LET s == ReadStr(b, 83, p + 1)
                  IN IF ~s.ok THEN Bad(st, "bad string object")
                     ELSE PrimDone(o, st, StrTok(s.cps), s.pos, s.wide)

\* Dates: a time value is milliseconds since 1970.  datetime covers years 1 to
\* 9999; time values outside must be refused, fractions of a millisecond are
\* left open.  Python cannot convert the first day of year 1 to local time.
MaxMs == <<255, 219, 31, 210, 119, 230>>            \* 253402300799999
MinMs == <<0, 216, 44, 18, 131, 56>>                 \* 62135596800000
FirstDay == <<0, 124, 6, 13, 131, 56>>   \* 62135510400000
Date(b, o, st, p) ==
  IF ~Avail(b, p + 1, 8) THEN Bad(st, "truncated date")
  ELSE LET d == SubSeq(b, p + 1, p + 8)
           i == DInteger(d)
           big == ~DFinite(d) \/ DExp(d) >= 1076
           out == big \/ (i.int /\ MagCmp(i.m, IF i.neg = 1 THEN MinMs ELSE MaxMs) > 0)
           tok == IF ~big /\ i.int THEN IntTok(i.neg, i.m) ELSE DblTok(d)
           s == Alloc(At(st, p + 9), [kind |-> "date", v |-> tok])
       IN IF o.mode # "js" /\ out THEN Bad(st, "unrepresentable date")
          ELSE Deliver(o, Amb(s, o.mode # "js" /\ (~i.int \/ (i.neg = 1 /\ MagCmp(i.m, FirstDay) > 0))), NewRef(s))

\* An inline string field: [ok, cps, pos, amb, strictbad, prim]
InlineStr(b, o, pos) ==
  LET p == SkipPad(b, pos)
      bad == [ok |-> FALSE, cps |-> <<>>, pos |-> p, amb |-> FALSE, prim |-> FALSE]
  IN IF p > Len(b) \/ b[p] \notin (StrTags \cup {115}) THEN bad
     ELSE LET s == ReadStr(b, IF b[p] = 115 THEN 83 ELSE b[p], p + 1)
          IN IF ~s.ok \/ (o.strict /\ (s.odd \/ b[p] = 115)) THEN bad
             ELSE [ok |-> TRUE, cps |-> s.cps, pos |-> s.pos,
                   amb |-> s.wide \/ b[p] = 115, prim |-> b[p] = 115]

Bit(n, k) == (n \div Pow2(k)) % 2 = 1

RegExp(b, o, st, p) ==
  LET s == InlineStr(b, o, p + 1)
      v == VI(b, s.pos)
      n == MagNat(v.m)
  IN IF ~s.ok THEN Bad(st, "bad regexp source")
     ELSE IF ~v.ok THEN Bad(st, "truncated regexp flags")
     ELSE IF n >= 512 THEN Bad(st, "unknown regexp flags")
     ELSE IF Bit(n, 4) /\ Bit(n, 8) THEN Bad(st, "regexp flags u and v")
     ELSE LET s0 == IF s.prim THEN [st EXCEPT !.ids = Append(@, StrTok(s.cps))] ELSE st
              src == IF s.cps = <<>> THEN <<40, 63, 58, 41>> ELSE s.cps
              s1 == Alloc(At(s0, v.pos), [kind |-> "re", src |-> StrTok(src), flags |-> n])
          IN Deliver(o, Use(Amb(s1, s.amb \/ v.n > 5), Bit(n, 8), "v"), NewRef(s1))

ErrNames == <<69, 82, 70, 83, 84, 85>>      \* E R F S T U
ErrIndex(t) == IF \E i \in 1..6 : ErrNames[i] = t
               THEN CHOOSE i \in 1..6 : ErrNames[i] = t ELSE 0
\* Error sub-tag: [ok, t, pos]
ETag(b, pos) == LET v == VI(b, pos) IN
  [ok |-> v.ok /\ Len(v.m) <= 1, t |-> IF v.ok /\ Len(v.m) = 1 THEN v.m[1] ELSE 0,
   pos |-> v.pos, amb |-> v.ok /\ v.n > 1]

ErrorHead(b, o, st, p) ==
  LET e1 == ETag(b, p + 1)
      nm == ErrIndex(e1.t)
      e2 == IF nm # 0 THEN ETag(b, e1.pos) ELSE e1
      hasM == e2.t = 109
      m  == InlineStr(b, o, e2.pos)
      e3 == IF hasM THEN ETag(b, m.pos) ELSE e2
      hasS == e3.t = 115
      s  == InlineStr(b, o, e3.pos)
      e4 == IF hasS THEN ETag(b, s.pos) ELSE e3
      overlong == e1.amb \/ (nm # 0 /\ e2.amb) \/ (hasM /\ e3.amb) \/ (hasS /\ e4.amb)
      BadE(why) == Amb(Bad(st, why), overlong)
      prims == (IF hasM /\ m.prim THEN <<StrTok(m.cps)>> ELSE <<>>)
               \o (IF hasS /\ s.prim THEN <<StrTok(s.cps)>> ELSE <<>>)
      node == [kind |-> "err", name |-> nm,
               msg |-> IF hasM THEN StrTok(m.cps)
                       ELSE IF o.mode # "js" THEN StrTok(<<>>) ELSE <<>>,
               stk |-> IF hasS THEN StrTok(s.cps) ELSE <<>>,
               cause |-> IF o.mode # "js" THEN NULL ELSE <<>>]
      s0 == [st EXCEPT !.ids = @ \o prims]
      s1 == Amb(Alloc(At(s0, e4.pos), node),
                overlong \/ (hasM /\ m.amb) \/ (hasS /\ s.amb))
      h  == Len(s1.heap)
  IN IF ~e1.ok \/ (nm # 0 /\ ~e2.ok) THEN BadE("bad error tag")
     ELSE IF hasM /\ (~m.ok \/ ~e3.ok) THEN BadE("bad error message")
     ELSE IF hasS /\ (~s.ok \/ ~e4.ok) THEN BadE("bad error stack")
     ELSE IF e4.t = 46 THEN Deliver(o, s1, REF(h))
     ELSE IF e4.t = 99 THEN Push(s1, [f |-> "cause", h |-> h, stk |-> hasS,
                                      id |-> Len(s1.ids) - 1])
     ELSE BadE("unexpected error field")

\* After the cause: an optional legacy stack, then the end marker.
ErrorEnd(b, o, st) ==
  LET f == Top(st)
      e1 == ETag(b, st.pos)
      late == e1.t = 115 /\ ~f.stk
      s == InlineStr(b, o, e1.pos)
      e2 == IF late THEN ETag(b, s.pos) ELSE e1
      over == e1.amb \/ (late /\ e2.amb)
      s1 == Amb(At(Pop(st), e2.pos), over \/ (late /\ s.amb))
      s2 == IF late THEN [s1 EXCEPT !.heap[f.h].stk = StrTok(s.cps)] ELSE s1
      s3 == IF late /\ s.prim THEN [s2 EXCEPT !.ids = Append(@, StrTok(s.cps))] ELSE s2
  IN IF ~e1.ok \/ (late /\ (~s.ok \/ ~e2.ok)) THEN Amb(Bad(st, "bad error end"), over)
     ELSE IF late /\ o.strict THEN Bad(st, "legacy error layout")
     ELSE IF e2.t = 46 THEN Deliver(o, s3, REF(f.h))
     ELSE Amb(Bad(st, "unexpected error field"), over)

BeginObject(o, st, p) ==
  LET s == Alloc(At(st, p + 1), [kind |-> "obj", props |-> <<>>])
  IN Push(s, PropsFrame(Len(s.heap), "o", <<>>))
BeginDense(b, o, st, p) ==
  LET v == VI(b, p + 1)
      n == MagNat(v.m)
      s == Amb(Alloc(At(st, v.pos), [kind |-> "arr", dense |-> TRUE, len |-> <<>>, props |-> <<>>]), VWide(v))
      h == Len(s.heap)
  IN IF ~v.ok THEN Bad(st, "truncated array length")
     ELSE IF n = 0 THEN Push(s, PropsFrame(h, "A", v.m))
     ELSE IF n > Len(b) - v.pos + 1 THEN Amb(Bad(st, "array longer than the data"), VWide(v))
     ELSE Push(s, [f |-> "elems", h |-> h, i |-> 0, n |-> n, len |-> v.m])
BeginSparse(b, o, st, p) ==
  LET v == VI(b, p + 1)
      s == Alloc(At(st, v.pos), [kind |-> "arr", dense |-> FALSE, len |-> v.m, props |-> <<>>])
  IN IF ~v.ok THEN Bad(st, "truncated array length")
     ELSE Push(Amb(s, VWide(v)), PropsFrame(Len(s.heap), "a", v.m))
BeginMap(o, st, p) ==
  LET s == Alloc(At(st, p + 1), [kind |-> "map", items |-> <<>>])
  IN Push(s, [f |-> "map", h |-> Len(s.heap), cnt |-> 0, key |-> <<>>])
BeginSet(o, st, p) ==
  LET s == Alloc(At(st, p + 1), [kind |-> "set", items |-> <<>>])
  IN Push(s, [f |-> "set", h |-> Len(s.heap), cnt |-> 0])

EndProps(b, o, st, p) ==
  LET f == Top(st)
      c == VI(b, p + 1)
      l == VI(b, c.pos)
      arr == f.kind # "o"
      s == At(Pop(st), IF arr THEN l.pos ELSE c.pos)
  IN IF ~c.ok \/ (arr /\ ~l.ok) THEN Bad(st, "truncated count")
     ELSE IF c.m # NatMag(f.cnt) THEN Amb(Bad(st, "property count mismatch"), VWide(c))
     ELSE IF arr /\ l.m # f.len THEN Amb(Bad(st, "array length mismatch"), VWide(l))
     ELSE Deliver(o, Closed(o, Amb(s, VWide(c) \/ (arr /\ VWide(l))), f.h), REF(f.h))
EndItems(b, o, st, p) ==
  LET f == Top(st)
      c == VI(b, p + 1)
  IN IF ~c.ok THEN Bad(st, "truncated count")
     ELSE IF c.m # NatMag(f.cnt) THEN Amb(Bad(st, "entry count mismatch"), VWide(c))
     ELSE Deliver(o, Closed(o, Amb(At(Pop(st), c.pos), VWide(c)), f.h), REF(f.h))

---------------------------------------------------------------------------
(* ArrayBuffers and views *)
ViewSize(t) == CASE t \in {98, 66, 67, 63} -> 1   \* b B C ?
                 [] t \in {119, 87, 104} -> 2     \* w W h
                 [] t \in {100, 68, 102} -> 4     \* d D f
                 [] t \in {70, 113, 81} -> 8      \* F q Q
                 [] OTHER -> 0

ModMag(m, k) == DivMod(m, k).r

\* A buffer value just read is wrapped when a view follows at once.
View(b, o, st, buf) ==
  LET nd == st.heap[buf[2]]
      tv == VI(b, st.pos + 1)
      t  == MagNat(tv.m)
      sz == ViewSize(t)
      ov == U32(b, tv.pos)
      lv == U32(b, ov.pos)
      hasF == st.ver >= 14
      fv == VI(b, lv.pos)
      fl == IF hasF /\ fv.m # <<>> THEN fv.m[1] % 4 ELSE 0
      track == fl % 2 = 1
      rab == fl >= 2
      real == nd.kind = "buf"
      blen == IF real THEN NatMag(Len(nd.data)) ELSE <<>>
      off == ov.m
      inOff == MagCmp(off, blen) <= 0
      inLen == IF off = <<>> THEN MagCmp(lv.m, blen) <= 0
               ELSE inOff /\ MagNat(lv.m) <= MagNat(blen) - MagNat(off)
      s1 == Alloc(At(st, IF hasF THEN fv.pos ELSE lv.pos),
                  [kind |-> "view", tag |-> t, buf |-> buf, off |-> off,
                   len |-> IF track THEN <<>> ELSE lv.m, track |-> track])
      s2 == Use(Use(s1, fl # 0, "resizable"), t = 104, "float16")
      rsz == real /\ nd.max # <<>>
      resizable == real /\ nd.rsz
      wide == tv.n > 1 \/ ov.n > 5 \/ lv.n > 5 \/ (hasF /\ (fv.n > 5 \/ Len(fv.m) > 4))
      \* flags must agree with the buffer, else V8 refuses the view
      s3 == Tol(o, s2, (fl # 0 /\ ~resizable) \/ (resizable /\ ~rab /\ hasF),
                "view flags disagree with buffer")
  IN IF ~tv.ok \/ sz = 0 \/ ~ov.ok \/ ~lv.ok \/ (hasF /\ ~fv.ok)
        THEN Amb(Bad(st, "bad view"), wide)
     ELSE IF ModMag(off, sz) # 0 THEN Amb(Bad(st, "misaligned view offset"), wide)
     ELSE IF ~track /\ ModMag(lv.m, sz) # 0 THEN Amb(Bad(st, "misaligned view length"), wide)
     ELSE IF real /\ ~inOff THEN Amb(Bad(st, "view offset out of bounds"), wide)
     ELSE IF real /\ ~track /\ ~inLen THEN Amb(Bad(st, "view length out of bounds"), wide)
     ELSE IF real /\ track /\ lv.m # <<>> /\ o.strict
          THEN Bad(st, "length-tracking view with a length")
     ELSE Amb(s3, wide \/ (track /\ ~real))

BufferDone(b, o, st, v) ==
  IF st.pos <= Len(b) /\ b[st.pos] = 86
  THEN LET s == View(b, o, st, v)
       IN IF s.status = "bad" THEN s ELSE Deliver(o, s, NewRef(s))
  ELSE \* padding before a view: readers differ
       LET q == SkipPad(b, st.pos)
       IN Deliver(o, Amb(st, q > st.pos /\ q <= Len(b) /\ b[q] = 86), v)

Buffer(b, o, st, t, p) ==
  LET v == U32(b, p + 1)
      n == MagNat(v.m)
      x == U32(b, v.pos)
      dpos == IF t = 126 THEN x.pos ELSE v.pos
  IN IF ~v.ok THEN Amb(Bad(st, "bad buffer length"), FALSE)
     ELSE IF t = 126 /\ ~x.ok THEN Bad(st, "bad buffer maximum length")
     ELSE IF t = 126 /\ MagCmp(x.m, v.m) < 0 THEN Bad(st, "maximum below length")
     ELSE IF ~Avail(b, dpos, n) THEN Bad(st, "buffer longer than the data")
     ELSE LET s == Alloc(At(st, dpos + n),
                         [kind |-> "buf", rsz |-> t = 126,
                          max |-> IF t = 126 THEN x.m ELSE <<>>,
                          data |-> SubSeq(b, dpos, dpos + n - 1)])
              s1 == Use(Amb(s, v.n > 5 \/ (t = 126 /\ x.n > 5)), t = 126, "resizable")
          IN BufferDone(b, o, s1, NewRef(s1))
\* SharedArrayBuffer and transferred ArrayBuffer hold only an index.
RemoteBuffer(b, o, st, t, p) ==
  LET v == U32(b, p + 1)
      s == Amb(Alloc(At(st, v.pos), [kind |-> IF t = 117 THEN "sab" ELSE "xfer", id |-> v.m]),
               v.n > 5)
  IN IF ~v.ok THEN Bad(st, "bad buffer id") ELSE BufferDone(b, o, s, NewRef(s))

SharedObj(b, o, st, p) ==
  LET v == U32(b, p + 1)
      s == Amb(Alloc(At(st, v.pos), [kind |-> "shared", id |-> v.m]), v.n > 5)
  IN IF ~v.ok THEN Bad(st, "bad shared object id") ELSE Deliver(o, s, NewRef(s))

ObjRef(b, o, st, p) ==
  LET v == VI(b, p + 1)
      i == MagNat(v.m)
      x == st.ids[i + 1]
      cyc == \E k \in 1..Len(st.stack) : st.stack[k].f = "cause" /\ st.stack[k].id = i
      s == Use(Amb(At(st, v.pos), VWide(v)), cyc, "circular")
  IN IF ~v.ok THEN Bad(st, "truncated reference")
     ELSE IF i >= Len(st.ids) THEN Amb(Bad(st, "dangling reference"), VWide(v))
     ELSE IF IsRef(x) /\ st.heap[x[2]].kind \in {"buf", "sab", "xfer"}
          THEN BufferDone(b, o, s, x)
     ELSE Deliver(o, s, x)

\* Host objects in Node.js' format: view code, byte length, bytes.
NodeTags == <<98, 66, 67, 119, 87, 100, 68, 102, 70, 63, 66, 113, 81>>
Host(b, o, st, p) ==
  LET c == U32(b, p + 1)
      v == U32(b, c.pos)
      n == MagNat(v.m)
      code == MagNat(c.m)
      t == NodeTags[code + 1]
      s1 == [st EXCEPT !.pos = v.pos + n, !.heap = Append(@,
               [kind |-> "buf", rsz |-> FALSE, max |-> <<>>,
                data |-> SubSeq(b, v.pos, v.pos + n - 1)])]
      s2 == Alloc(s1, [kind |-> "view", tag |-> t, buf |-> REF(Len(s1.heap)),
                       off |-> <<>>, len |-> v.m, track |-> FALSE])
      wide == c.n > 5 \/ v.n > 5
  IN IF ~o.host THEN Bad(st, "host object without a reader")
     ELSE IF ~c.ok \/ ~v.ok THEN Bad(st, "bad host object")
     ELSE IF OptOf(o, "custom") = 1
          THEN IF ~Avail(b, v.pos, n) THEN Bad(st, "truncated host object")
               ELSE LET s == Alloc([st EXCEPT !.pos = v.pos + n],
                               [kind |-> "hv", code |-> c.m,
                                data |-> SubSeq(b, v.pos, v.pos + n - 1)])
                    IN Deliver(o, Amb(s, wide), NewRef(s))
     ELSE IF code > 12 THEN Amb(Bad(st, "unknown host view"), wide)
     ELSE IF ~Avail(b, v.pos, n) THEN Amb(Bad(st, "truncated host object"), wide)
     ELSE Deliver(o, Amb(s2, wide \/ n % ViewSize(t) # 0), NewRef(s2))

---------------------------------------------------------------------------
(* Which step comes next *)
ConstTags == {45, 95, 48, 84, 70}
PrimTags == {121, 120, 110, 122, 115}

InErrEnd(st) == st.stack # <<>> /\ Top(st).f = "errend"
KeyPhase(st) == st.stack # <<>> /\ Top(st).f = "props" /\ Top(st).key = <<>>
MapPhase(st) == st.stack # <<>> /\ Top(st).f = "map" /\ Top(st).key = <<>>
SetPhase(st) == st.stack # <<>> /\ Top(st).f = "set"

StepKind(b, st) ==
  IF st.status = "hdr" THEN "Header"
  ELSE IF InErrEnd(st) THEN "ErrorEnd"
  ELSE LET p == SkipPad(b, st.pos) IN
    IF p > Len(b) THEN "Truncated"
    ELSE LET t == b[p] IN
      IF KeyPhase(st) /\ t = EndOf(Top(st).kind) THEN "EndProps"
      ELSE IF KeyPhase(st) /\ t \notin KeyTags THEN "BadKey"
      ELSE IF (MapPhase(st) /\ t = 58) \/ (SetPhase(st) /\ t = 44) THEN "EndItems"
      ELSE CASE t \in ConstTags -> "Const"
             [] t = 73 -> "Int32"
             [] t = 85 -> "Uint32"
             [] t = 78 -> "Double"
             [] t = 90 -> "BigInt"
             [] t \in StrTags -> "Str"
             [] t \in PrimTags -> "Prim"
             [] t = 68 -> "Date"
             [] t = 82 -> "RegExp"
             [] t = 114 -> "ErrorHead"
             [] t = 111 -> "BeginObject"
             [] t = 65 -> "BeginDense"
             [] t = 97 -> "BeginSparse"
             [] t = 59 -> "BeginMap"
             [] t = 39 -> "BeginSet"
             [] t \in {66, 126} -> "Buffer"
             [] t \in {117, 116} -> "RemoteBuffer"
             [] t = 112 -> "SharedObj"
             [] t = 94 -> "ObjRef"
             [] t = 92 -> "Host"
             [] OTHER -> "Unhandled"

StepAs(kind, b, o, st) ==
  LET p == SkipPad(b, st.pos)
      t == b[p]
  IN CASE kind = "Header" -> Header(b, o, st)
       [] kind = "ErrorEnd" -> ErrorEnd(b, o, st)
       [] kind = "Truncated" -> Bad(st, "truncated")
       [] kind = "EndProps" -> EndProps(b, o, st, p)
       [] kind = "BadKey" -> Bad(st, "bad property key")
       [] kind = "EndItems" -> EndItems(b, o, st, p)
       [] kind = "Const" -> Const(o, st, t, p)
       [] kind = "Int32" -> Int32(b, o, st, p)
       [] kind = "Uint32" -> Uint32(b, o, st, p)
       [] kind = "Double" -> Double(b, o, st, p)
       [] kind = "BigInt" -> BigInt(b, o, st, p)
       [] kind = "Str" -> Str(b, o, st, t, p)
       [] kind = "Prim" -> Prim(b, o, st, t, p)
       [] kind = "Date" -> Date(b, o, st, p)
       [] kind = "RegExp" -> RegExp(b, o, st, p)
       [] kind = "ErrorHead" -> ErrorHead(b, o, st, p)
       [] kind = "BeginObject" -> BeginObject(o, st, p)
       [] kind = "BeginDense" -> BeginDense(b, o, st, p)
       [] kind = "BeginSparse" -> BeginSparse(b, o, st, p)
       [] kind = "BeginMap" -> BeginMap(o, st, p)
       [] kind = "BeginSet" -> BeginSet(o, st, p)
       [] kind = "Buffer" -> Buffer(b, o, st, t, p)
       [] kind = "RemoteBuffer" -> RemoteBuffer(b, o, st, t, p)
       [] kind = "SharedObj" -> SharedObj(b, o, st, p)
       [] kind = "ObjRef" -> ObjRef(b, o, st, p)
       [] kind = "Host" -> Host(b, o, st, p)
       [] kind = "Unhandled" ->
            \* '?' is skipped by V8 but unknown here; all other tags are refused
            Amb(Bad(st, "unhandled tag"), t = 63)

StepKinds == {"Header", "ErrorEnd", "Truncated", "EndProps", "BadKey", "EndItems", "Const",
  "Int32", "Uint32", "Double", "BigInt", "Str", "Prim", "Date", "RegExp", "ErrorHead",
  "BeginObject", "BeginDense", "BeginSparse", "BeginMap", "BeginSet", "Buffer",
  "RemoteBuffer", "SharedObj", "ObjRef", "Host", "Unhandled"}

---------------------------------------------------------------------------
(***************************************************************************)
(* Canonical flat form of a value graph: nodes are numbered in the order a *)
(* depth-first walk meets them, so two graphs have the same form iff they  *)
(* are isomorphic (values, sharing, cycles and order all agree).           *)
(***************************************************************************)
RECURSIVE InsSorted(_, _, _)
InsSorted(s, e, i) ==
  IF i > Len(s) THEN Append(s, e)
  ELSE IF MagCmp(KeyMag(e.k), KeyMag(s[i].k)) < 0
       THEN SubSeq(s, 1, i - 1) \o <<e>> \o SubSeq(s, i, Len(s))
       ELSE InsSorted(s, e, i + 1)
RECURSIVE SplitProps(_, _, _, _)
SplitProps(props, i, ints, strs) ==
  IF i > Len(props) THEN ints \o strs
  ELSE IF IsIndexKey(props[i].k)
       THEN SplitProps(props, i + 1,
              IF ints = <<>> \/ MagCmp(KeyMag(ints[Len(ints)].k), KeyMag(props[i].k)) < 0
              THEN Append(ints, props[i]) ELSE InsSorted(ints, props[i], 1), strs)
       ELSE SplitProps(props, i + 1, ints, Append(strs, props[i]))
OrderedProps(props) == SplitProps(props, 1, <<>>, <<>>)

RECURSIVE SeenAt(_, _, _)
SeenAt(seen, h, i) == IF i > Len(seen) THEN 0 ELSE IF seen[i] = h THEN i ELSE SeenAt(seen, h, i + 1)

Emit(a, toks) == [a EXCEPT !.out = @ \o toks]

RECURSIVE Walk(_, _, _, _), WalkProps(_, _, _, _, _), WalkItems(_, _, _, _, _, _)
Walk(o, heap, v, a) ==
  IF v = <<>> THEN Emit(a, <<0>>)
  ELSE IF ~IsRef(v) THEN Emit(a, v)
  ELSE LET h == v[2]
           k == SeenAt(a.seen, h, 1)
           n == heap[h]
           alt == OptOf(o, n.kind)
           a1 == [a EXCEPT !.seen = Append(@, h),
                           !.out = IF alt = 0 THEN @ ELSE @ \o <<210, alt>>]
       IN IF k # 0 /\ ~o.flat THEN Emit(a, <<94, k>>)
          ELSE CASE n.kind = "obj" ->
                      LET ps == OrderedProps(n.props)
                      IN WalkProps(o, heap, ps, 1, Emit(a1, <<111, Len(ps)>>))
                 [] n.kind = "arr" ->
                      LET ps == OrderedProps(n.props)
                      IN WalkProps(o, heap, ps, 1,
                                   Emit(a1, <<65>> \o MagTok(n.len) \o <<Len(ps)>>))
                 [] n.kind = "map" -> WalkItems(o, heap, n.items, 1, TRUE,
                                                Emit(a1, <<59, Len(n.items)>>))
                 [] n.kind = "set" -> WalkItems(o, heap, n.items, 1, FALSE,
                                                Emit(a1, <<39, Len(n.items)>>))
                 [] n.kind = "prim" -> Emit(a1, <<115>> \o n.v)
                 [] n.kind = "date" -> Emit(a1, <<68>> \o n.v)
                 [] n.kind = "re" -> Emit(a1, <<82>> \o n.src \o <<n.flags>>)
                 [] n.kind = "err" ->
                      LET msg == IF n.msg = <<>> THEN <<0>> ELSE n.msg
                          stk == IF n.stk = <<>> THEN <<0>> ELSE n.stk
                      IN Walk(o, heap, n.cause, Emit(a1, <<114, n.name>> \o msg \o stk))
                 [] n.kind = "buf" ->
                      Emit(a1, <<66, IF n.rsz THEN 1 ELSE 0>> \o MagTok(n.max)
                               \o <<Len(n.data)>> \o n.data)
                 [] n.kind = "sab" -> Emit(a1, <<117>> \o MagTok(n.id))
                 [] n.kind = "xfer" -> Emit(a1, <<116>> \o MagTok(n.id))
                 [] n.kind = "hv" ->
                      Emit(a1, <<220>> \o MagTok(n.code) \o <<Len(n.data)>> \o n.data)
                 [] n.kind = "shared" -> Emit(a1, <<112>> \o MagTok(n.id))
                 [] n.kind = "view" ->
                      Walk(o, heap, n.buf,
                           Emit(a1, <<86, n.tag, IF n.track THEN 1 ELSE 0>> \o MagTok(n.off)
                                    \o MagTok(n.len)))
WalkProps(o, heap, ps, i, a) ==
  IF i > Len(ps) THEN a
  ELSE WalkProps(o, heap, ps, i + 1, Walk(o, heap, ps[i].v, Emit(a, ps[i].k)))
WalkItems(o, heap, items, i, kv, a) ==
  IF i > Len(items) THEN a
  ELSE LET key == IF o.mode # "py" /\ items[i].key = <<78>> \o NegZero
                  THEN items[i].k ELSE items[i].key
           a1 == Walk(o, heap, key, a)
       IN WalkItems(o, heap, items, i + 1, kv,
                    IF kv THEN Walk(o, heap, items[i].v, a1) ELSE a1)

Canon(o, st) == Walk(o, st.heap, st.root, [seen |-> <<>>, out |-> <<>>]).out
=============================================================================
