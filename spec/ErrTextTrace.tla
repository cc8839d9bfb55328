----------------------------- MODULE ErrTextTrace ------------------------------
(* Recorded conversions of real exceptions ([e, err]) against ErrText.       *)
EXTENDS ErrText, HistTrace
\* every history is one conversion
Apply(s, op) == [s |-> s, r |-> ErrorOf(op)]
================================================================================
