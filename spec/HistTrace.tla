------------------------------ MODULE HistTrace -------------------------------
(* Validates recorded histories of calls against a machine Apply(st, op).    *)
(* Each line of the trace is [start, steps]; a step is [op, r, obs]: the     *)
(* call, its real result, and what was observed of the object afterwards     *)
(* (obs is <<>> where nothing was observed, else <<state>>).  A machine may   *)
(* leave a result open (amb), which ends the history.                        *)
EXTENDS Integers, Sequences, TLC, Json, IOUtils

CONSTANT Machine(_, _)      \* replaced by the machine's Apply in the configuration
VARIABLES tid, i, st, verdict
vars == <<tid, i, st, verdict>>

T == ndJsonDeserialize(IOEnv.TRACE)
Steps == T[tid].steps
Init == tid \in 1..Len(T) /\ i = 1 /\ verdict = "-" /\ st = T[tid].start
Step == /\ verdict = "-" /\ i <= Len(Steps)
        /\ LET e == Steps[i]
               a == Machine(st, e.op)
               bad == IF "amb" \in DOMAIN a /\ a.amb THEN "amb"
                      ELSE IF e.r # a.r THEN "result"
                      ELSE IF e.obs # <<>> /\ e.obs[1] # a.s THEN "state" ELSE ""
           IN /\ st' = IF bad = "" THEN a.s ELSE st
              /\ IF bad = "" THEN verdict' = "-" /\ i' = i + 1
                 ELSE /\ verdict' = bad /\ i' = i
                      /\ PrintT("H " \o ToJson([tid |-> tid, v |-> bad, i |-> i, exp |-> a]))
        /\ UNCHANGED tid
Done == /\ verdict = "-" /\ i = Len(Steps) + 1 /\ verdict' = "ok"
        /\ PrintT("H " \o ToJson([tid |-> tid, v |-> "ok", i |-> i]))
        /\ UNCHANGED <<tid, i, st>>
Next == Step \/ Done
Spec == Init /\ [][Next]_vars
===============================================================================
