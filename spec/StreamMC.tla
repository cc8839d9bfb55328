------------------------------- MODULE StreamMC --------------------------------
(* Every sequence of up to Depth write calls from an alphabet, and what the   *)
(* matching read calls give back.                                             *)
EXTENDS Stream, Json, IOUtils
CONSTANT Depth
VARIABLES s, d
In == ndJsonDeserialize(IOEnv.KEYS)[1]
Init == d = 0 /\ \E k \in 1..Len(In.starts) : s = In.starts[k]
Fits(op) == (op[1] = "refobj" => op[2] < s.n \/ op[2] = 99)
Next == /\ d < Depth /\ d' = d + 1
        /\ \E k \in 1..Len(In.ops) : LET op == In.ops[k] IN
             /\ Fits(op)
             /\ LET a == W(s, op) IN
                /\ PrintT("T " \o ToJson([s |-> s, op |-> op, r |-> a.r, t |-> a.s]))
                /\ s' = IF a.r = "ok" THEN a.s ELSE s
Spec == Init /\ [][Next]_<<s, d>>

\* The bytes of one call are read back as its arguments, to their end.
Reader(op) ==
  LET k == op[1] IN
  CASE k = "varint" -> <<"varint">> [] k = "zigzag" -> <<"zigzag">> [] k = "header" -> <<"header">>
    [] k = "const" -> <<"value">> [] k = "prim" -> <<"prim", 0>> [] k \in {"refid", "refobj"} -> <<"ref", 1>>
    [] k \in {"buffer", "shared", "transfer"} -> <<"buffer", 0>>
    [] k \in {"latin1", "utf8", "utf16", "double", "int32", "uint32", "bigint"} -> <<k, op[2]>>
    [] OTHER -> <<k, 1>>
Given(op, id, f) ==
  LET k == op[1] IN
  CASE k = "varint" -> IntTok(op[2], op[3]) [] k = "zigzag" -> IntTok(op[2], op[3]) [] k = "header" -> <<15>>
    [] k = "const" -> <<op[2]>> [] k \in {"refid", "refobj"} -> <<94, op[2]>>
    [] k \in {"latin1", "utf8", "utf16"} -> StrTok(op[3]) [] k = "double" -> DblTok(op[3])
    [] k \in {"int32", "uint32", "bigint"} -> IntTok(op[3], op[4])
    [] k = "prim" -> <<id>> \o (CASE op[2] = 115 -> StrTok(op[3]) [] op[2] = 110 -> DblTok(op[3])
                        [] op[2] = 122 -> IntTok(op[3][1], Tail(op[3])) [] op[2] = 121 -> TRU [] OTHER -> FALS)
    [] k = "regexp" -> <<id, 82>> \o StrTok(IF op[2] = <<>> THEN <<40, 63, 58, 41>> ELSE op[2]) \o <<op[3]>>
    [] k = "date" -> <<id, 68>> \o IntTok(DInteger(op[2]).neg, DInteger(op[2]).m)
    [] k = "buffer" -> LET z == op[3] # <<>> /\ f.resizable = 1
                       IN <<id, 66, IF z THEN 1 ELSE 0>> \o (IF z THEN MagTok(NatMag(op[3][1])) ELSE <<0>>)
                          \o <<Len(op[2])>> \o op[2]
    [] k = "shared" -> <<id, 117>> \o MagTok(op[2]) [] k = "transfer" -> <<id, 116>> \o MagTok(op[2])
    [] k = "sharedobj" -> <<id>> \o IntTok(0, op[2])
    [] k = "view" -> <<86, op[2]>> \o MagTok(op[3]) \o (IF op[5] = 1 /\ op[6] = 1 /\ f.resizable = 1 THEN <<99>> ELSE MagTok(op[4]))
Simple == {"varint", "zigzag", "header", "const", "refid", "refobj", "latin1", "utf8", "utf16", "double", "int32", "uint32",
           "bigint", "prim", "regexp", "date", "buffer", "shared", "transfer", "sharedobj", "view"}
InvReadBack == \A k \in 1..Len(In.ops) : LET op == In.ops[k]  a == W(s, op) IN
  op[1] \in (Simple \cup {"map", "set", "object", "dense", "sparse", "error"}) /\ a.r = "ok" /\ Fits(op) =>
    LET g == Read([b |-> a.s.w, pos |-> Len(s.w), n |-> s.n, ver |-> 15], Reader(op))
    IN g.r = "ok" /\ g.s.pos = Len(a.s.w) /\ g.s.n = a.s.n /\ (op[1] \in Simple => g.v = Given(op, s.n, s.f))
InvRefused == \A k \in 1..Len(In.ops) : LET op == In.ops[k] IN
  op[1] \notin {"error", "map", "set", "object", "dense", "sparse", "host"} /\ W(s, op).r # "ok" => W(s, op).s = s
================================================================================
