-------------------------------- MODULE Features -------------------------------
(***************************************************************************)
(* The optional features of the serialization format, the V8 version that  *)
(* introduced each, and what enabling them allows to be written.           *)
(*                                                                         *)
(* A version is a sequence of numbers; <<>> is the unreleased version,     *)
(* which is after all others.                                              *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC

All == {"v", "resizable", "circular", "float16"}
Introduced(f) == CASE f = "v" -> <<10, 7, 123>>
                   [] f = "resizable" -> <<11, 0, 193>>
                   [] f = "circular" -> <<12, 1, 109>>
                   [] f = "float16" -> <<>>
Baseline == <<10, 0, 29>>       \* the first version with format 15

At(v, i) == IF i <= Len(v) THEN v[i] ELSE 0
RECURSIVE LeqFrom(_, _, _)
LeqFrom(a, b, i) ==
  IF i > Len(a) /\ i > Len(b) THEN TRUE
  ELSE IF At(a, i) # At(b, i) THEN At(a, i) < At(b, i)
  ELSE LeqFrom(a, b, i + 1)
Leq(a, b) == IF b = <<>> THEN TRUE ELSE IF a = <<>> THEN FALSE ELSE LeqFrom(a, b, 1)

TooOld(v) == ~Leq(Baseline, v)
SupportedBy(v) == {f \in All : Leq(Introduced(f), v)}

\* Options: explicit features and no (<<>>) or one version (<<version>>)
Refused(opt) == opt.ver # <<>> /\ TooOld(opt.ver[1])
Enabled(opt) == opt.feats \cup (IF opt.ver = <<>> THEN {} ELSE SupportedBy(opt.ver[1]))

\* The first version able to read what is written with these features
FirstVersion(fs) ==
  IF fs = {} THEN Baseline
  ELSE Introduced(CHOOSE f \in fs : \A g \in fs : Leq(Introduced(g), Introduced(f)))

\* Writing data that would use the features `needs`: resizable buffers have an
\* equivalent without the feature, everything else has none.
Fallback == {"resizable"}
CanWrite(needs, fs) == needs \subseteq fs \cup Fallback
Uses(needs, fs) == needs \cap fs

(* Facts of the table *)
Monotone == \A f, g \in All : Leq(Introduced(f), Introduced(g)) \/ Leq(Introduced(g), Introduced(f))
================================================================================
