------------------------------ MODULE FeaturesMC -------------------------------
(* Every combination of explicit features, target version (of the file KEYS) *)
(* and features the data would use.                                          *)
EXTENDS Features, Json, IOUtils
Versions == {x.v : x \in {ndJsonDeserialize(IOEnv.KEYS)[i] : i \in 1..Len(ndJsonDeserialize(IOEnv.KEYS))}}
VARIABLES opt, needs, done
vars == <<opt, needs, done>>
Init == /\ opt \in [feats : SUBSET All, ver : {<<>>} \cup {<<v>> : v \in Versions}]
        /\ needs \in SUBSET All /\ done = FALSE
Rec == IF Refused(opt) THEN [opt |-> opt, needs |-> needs, refused |-> 1]
       ELSE LET fs == Enabled(opt)
            IN [opt |-> opt, needs |-> needs, refused |-> 0, enabled |-> fs,
                first |-> FirstVersion(fs), can |-> CanWrite(needs, fs), uses |-> Uses(needs, fs)]
Next == ~done /\ done' = TRUE /\ PrintT("T " \o ToJson(Rec)) /\ UNCHANGED <<opt, needs>>
Spec == Init /\ [][Next]_vars

\* whatever is written is readable by the targeted version, if features come only from it
ReadableByTarget == (~Refused(opt) /\ opt.ver # <<>> /\ opt.feats = {})
                    => \A f \in Uses(needs, Enabled(opt)) : Leq(Introduced(f), opt.ver[1])
FirstReads == ~Refused(opt) => \A f \in Enabled(opt) : Leq(Introduced(f), FirstVersion(Enabled(opt)))
More == ~Refused(opt) => \A f \in All : CanWrite(needs, Enabled(opt)) => CanWrite(needs, Enabled(opt) \cup {f})
================================================================================
