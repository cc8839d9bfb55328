---------------------------- MODULE LoadsOptions ----------------------------
(***************************************************************************)
(* Which options loads() accepts together and what they amount to.  A call *)
(* is a set of given options; its outcome is a refusal (TypeError) or the  *)
(* customisations in effect and who reads host objects.                    *)
(***************************************************************************)
EXTENDS Sequences, FiniteSets, TLC, Json

Types == {"jsmap_type", "jsset_type", "js_object_type", "js_array_type", "js_constants",
          "js_error_builder", "default_timezone"}
Handler == "host_object_deserializer"
Steps == "decode_steps"
Names == Types \cup {Handler, Steps}
Node == {"unset", "true", "false"}

VARIABLES given, node
Init == given \in SUBSET Names /\ node \in Node

Refused == \/ Steps \in given /\ (given # {Steps} \/ node # "unset")
           \/ Handler \in given /\ node = "true"
HostReader == IF Handler \in given THEN "custom"
              ELSE IF Steps \in given THEN "steps"
              ELSE IF node = "false" THEN "none" ELSE "node"
InEffect == given \cap Types

\* A TagReader takes the same customisations, but reads host objects only with a handler.
ReaderHost == IF Handler \in given THEN "custom" ELSE "none"

(* Invariants *)
EachAloneIsAccepted == Cardinality(given) = 1 /\ node = "unset" => ~Refused
CustomisationsCompose == Steps \notin given /\ node # "true" => ~Refused
NothingIsDropped == ~Refused /\ Steps \notin given =>
                      given = InEffect \cup (IF HostReader = "custom" THEN {Handler} ELSE {})
NodeByDefault == ~Refused /\ given \cap {Handler, Steps} = {} =>
                   (HostReader = "none" <=> node = "false")

Emit == PrintT("T " \o ToJson([given |-> given, node |-> node, refused |-> Refused,
                               host |-> HostReader, reader |-> ReaderHost]))
Next == UNCHANGED <<given, node>>
Spec == Init /\ [][Next]_<<given, node>>
All == EachAloneIsAccepted /\ CustomisationsCompose /\ NothingIsDropped /\ NodeByDefault /\ Emit
=============================================================================
