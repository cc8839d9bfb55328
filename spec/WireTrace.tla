------------------------------ MODULE WireTrace ------------------------------
(***************************************************************************)
(* Trace validation of the codec.  Each line of the trace file is one real *)
(* execution: the bytes, what the implementation made of them (or from     *)
(* which value it made them), as recorded by /verif/harness.  Every record *)
(* is an initial state; the wire machine then runs over its bytes one      *)
(* action per tag and Judge compares the result with the observation.      *)
(*                                                                         *)
(* Record: b bytes; mode, strict, host, flat options; acc 1/0: the         *)
(* implementation accepted; err: "clean" error class / other; tok: the     *)
(* canonical form(s) of the observed value (any may match); feats: enabled *)
(* features; kind: what the record is evidence for: "decode" (loads of b   *)
(* gave tok), "encode" (dumps of tok gave b), "rt" (dumps of tok2 gave b   *)
(* and loads of that gave tok).                                            *)
(***************************************************************************)
EXTENDS V8Wire, Json, IOUtils

T == ndJsonDeserialize(IOEnv.TRACE)

VARIABLES tid, st, verdict

vars == <<tid, st, verdict>>

B == T[tid].b
O == LET r == T[tid] IN
  IF "opt" \in DOMAIN r
  THEN [mode |-> r.mode, strict |-> r.strict = 1, host |-> r.host = 1, flat |-> r.flat = 1,
        opt |-> r.opt]
  ELSE [mode |-> r.mode, strict |-> r.strict = 1, host |-> r.host = 1, flat |-> r.flat = 1]

Init == tid \in 1..Len(T) /\ st = Start /\ verdict = "-"

Running == st.status \in {"hdr", "run"}

\* The wire machine's steps, each its own action
Do(k) == /\ Running
         /\ StepKind(B, st) = k
         /\ st' = StepAs(k, B, O, st)
         /\ UNCHANGED <<tid, verdict>>
Header_      == Do("Header")
ErrorEnd_    == Do("ErrorEnd")
Truncated_   == Do("Truncated")
EndProps_    == Do("EndProps")
BadKey_      == Do("BadKey")
EndItems_    == Do("EndItems")
Const_       == Do("Const")
Int32_       == Do("Int32")
Uint32_      == Do("Uint32")
Double_      == Do("Double")
BigInt_      == Do("BigInt")
Str_         == Do("Str")
Prim_        == Do("Prim")
Date_        == Do("Date")
RegExp_      == Do("RegExp")
ErrorHead_   == Do("ErrorHead")
BeginObject_ == Do("BeginObject")
BeginDense_  == Do("BeginDense")
BeginSparse_ == Do("BeginSparse")
BeginMap_    == Do("BeginMap")
BeginSet_    == Do("BeginSet")
Buffer_      == Do("Buffer")
RemoteBuffer_ == Do("RemoteBuffer")
SharedObj_   == Do("SharedObj")
ObjRef_      == Do("ObjRef")
Host_        == Do("Host")
Unhandled_   == Do("Unhandled")

In(c, toks) == \E i \in 1..Len(toks) : toks[i] = c
Matches(s) == In(Canon(O, s), T[tid].tok)
Feats == {T[tid].feats[i] : i \in 1..Len(T[tid].feats)}

Verdict(s) ==
  LET r == T[tid]
  IN IF r.err = "unclean" THEN "raised something other than the documented error"
     ELSE IF r.kind = "encode" THEN
        IF s.status = "bad" THEN "encoder output is malformed: " \o s.why
        ELSE IF s.pos # Len(B) + 1 THEN "encoder output has trailing bytes"
        ELSE IF ~(s.uses \subseteq Feats)
             THEN "encoder output needs a feature that is not enabled: "
                  \o ToString(s.uses \ Feats)
        ELSE IF ~Matches(s) THEN "encoder output is a different value" ELSE "ok"
     ELSE IF r.kind = "rt" THEN
        IF r.acc = 0 THEN "rejected its own output"
        ELSE IF s.status = "bad" THEN "wrote malformed data: " \o s.why
        ELSE IF s.amb
             THEN IF \E i \in 1..Len(r.tok) : In(r.tok[i], r.tok2) THEN "ok"
                  ELSE "read back a different value"
        ELSE LET c == Canon(O, s)
             IN IF ~In(c, r.tok2) THEN "wrote a different value"
                ELSE IF ~In(c, r.tok) THEN "read back a different value" ELSE "ok"
     ELSE
        IF s.amb THEN "ok"
        ELSE IF s.status = "bad" /\ r.acc = 1 THEN "accepted malformed data: " \o s.why
        ELSE IF s.status = "bad" THEN "ok"
        ELSE IF r.acc = 0 THEN "rejected well-formed data"
        ELSE IF ~Matches(s) THEN "decoded a different value" ELSE "ok"

Judge == /\ ~Running /\ verdict = "-"
         /\ verdict' = Verdict(st)
         /\ PrintT(<<"J", tid, verdict', st.status, st.amb>>)
         /\ UNCHANGED <<tid, st>>

Next == \/ Header_ \/ ErrorEnd_ \/ Truncated_ \/ EndProps_ \/ BadKey_ \/ EndItems_
        \/ Const_ \/ Int32_ \/ Uint32_ \/ Double_ \/ BigInt_ \/ Str_ \/ Prim_ \/ Date_
        \/ RegExp_ \/ ErrorHead_ \/ BeginObject_ \/ BeginDense_ \/ BeginSparse_
        \/ BeginMap_ \/ BeginSet_ \/ Buffer_ \/ RemoteBuffer_ \/ SharedObj_ \/ ObjRef_
        \/ Host_ \/ Unhandled_ \/ Judge

Spec == Init /\ [][Next]_vars

(* Invariants of the machine itself *)
IdsResolve == \A i \in 1..Len(st.ids) :
                IsRef(st.ids[i]) => st.ids[i][2] \in 1..Len(st.heap)
StackSound == \A i \in 1..Len(st.stack) : st.stack[i].h \in 1..Len(st.heap)
DoneIsEmpty == st.status = "ok" => st.stack = <<>> /\ st.root # <<>>
NeverPastEnd == st.status # "bad" => st.pos <= Len(B) + 1
=============================================================================
