-------------------------------- MODULE Calls --------------------------------
(***************************************************************************)
(* Calls of an encoder or decoder that run in several threads, one after   *)
(* another, or inside each other (from an encode or decode step).  A call  *)
(* walks over an array whose elements are objects.  Elements of a pattern: *)
(*   enc: "a" "b" objects that all calls share, "r" "R" equal immutable    *)
(*        values, "s" the array itself                                     *)
(*   dec: "o" an object, "0" "1" "2" a reference to the object of that id  *)
(*   both: "!" refused; "(" an object on which the step makes another call *)
(*        which succeeds, "[" the same with a call that fails (caught)     *)
(* The outcome of a call is the reference it makes for each element (enc:  *)
(* -1 for a new object; dec: the number of the object it got).             *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils

CONSTANTS Calls,      \* number of calls
          Shared      \* TRUE: calls share one object log (must violate Right)

\* the calls to make: <<dir, pattern>>
Patterns == LET k == ndJsonDeserialize(IOEnv.KEYS)[1] IN {k[i] : i \in 1..Len(k)}

Ident(e) == IF e = "R" THEN "r" ELSE e
RECURSIVE Pos(_, _, _)
Pos(s, x, i) == IF i > Len(s) THEN 0 ELSE IF s[i] = x THEN i ELSE Pos(s, x, i + 1)
Digit(e) == CASE e = "0" -> 0 [] e = "1" -> 1 [] e = "2" -> 2 [] OTHER -> -1
InnerPat(dir, e) == IF dir = "enc" THEN IF e = "(" THEN <<"a", "a">> ELSE <<"a", "!">>
                    ELSE IF e = "(" THEN <<"o", "1">> ELSE <<"o", "!">>

\* the effect of one element on the object log
Elem(dir, log, e) ==
  IF e = "!" THEN [ok |-> FALSE, log |-> log, out |-> -1]
  ELSE IF dir = "enc"
       THEN LET id == IF e = "s" THEN "root" ELSE Ident(e)
                p == IF e \in {"(", "["} THEN 0 ELSE Pos(log, id, 1)
            IN IF p = 0 THEN [ok |-> TRUE, log |-> Append(log, id), out |-> -1]
               ELSE [ok |-> TRUE, log |-> log, out |-> p - 1]
       ELSE IF Digit(e) >= 0
            THEN IF Digit(e) < Len(log) THEN [ok |-> TRUE, log |-> log, out |-> Digit(e)]
                 ELSE [ok |-> FALSE, log |-> log, out |-> -1]
       ELSE [ok |-> TRUE, log |-> Append(log, "o"), out |-> Len(log)]

---------------------------------------------------------------------------
(* What a call gives on its own *)
RECURSIVE Alone(_, _, _, _, _, _)
Alone(dir, pat, i, log, out, inner) ==
  IF i > Len(pat) THEN [ok |-> TRUE, out |-> out, inner |-> inner]
  ELSE LET in2 == IF pat[i] \in {"(", "["}
                  THEN LET x == Alone(dir, InnerPat(dir, pat[i]), 1, <<"root">>, <<>>, <<>>)
                       IN Append(inner, [ok |-> x.ok, out |-> x.out])
                  ELSE inner
           d == Elem(dir, log, pat[i])
       IN IF ~d.ok THEN [ok |-> FALSE, out |-> <<>>, inner |-> in2]
          ELSE Alone(dir, pat, i + 1, d.log, Append(out, d.out), in2)
Pure(j) == Alone(j[1], j[2], 1, <<"root">>, <<>>, <<>>)

---------------------------------------------------------------------------
VARIABLES job, call, glog, hist
vars == <<job, call, glog, hist>>

New == [st |-> "new", frames |-> <<>>, inner |-> <<>>, out |-> <<>>, ok |-> FALSE]
Init == /\ job \in [1..Calls -> Patterns]
        /\ call = [c \in 1..Calls |-> New]
        /\ glog = [enc |-> <<>>, dec |-> <<>>] /\ hist = <<>>

Frame(pat) == [pat |-> pat, i |-> 0, log |-> <<>>, out |-> <<>>]
Log(x, dir, g) == IF Shared THEN g[dir] ELSE x.frames[Len(x.frames)].log
PutTop(x, f) == [x EXCEPT !.frames[Len(x.frames)] = f]
Drop(x) == [x EXCEPT !.frames = SubSeq(@, 1, Len(@) - 1)]

\* One element (or the root) of the innermost frame has been reached:
\* <<call state, shared log>> afterwards.  A completed inner call returns to
\* the step which made it, and that step then handles its own element.
RECURSIVE Advance(_, _, _), Handle(_, _, _, _)
Handle(x, dir, g, e) ==
  LET f == x.frames[Len(x.frames)]
      d == Elem(dir, Log(x, dir, g), e)
      g2 == IF Shared THEN [g EXCEPT ![dir] = d.log] ELSE g
      f2 == [f EXCEPT !.log = d.log, !.out = Append(@, d.out), !.i = @ + 1]
      last == f.i = Len(f.pat)
  IN IF d.ok /\ ~last THEN <<PutTop(x, f2), g2>>
     ELSE LET r == [ok |-> d.ok, out |-> IF d.ok THEN f2.out ELSE <<>>]
          IN IF Len(x.frames) = 1
             THEN <<[x EXCEPT !.st = "done", !.frames = <<>>, !.ok = r.ok, !.out = r.out], g2>>
             ELSE LET y == [Drop(x) EXCEPT !.inner = Append(@, r)]
                      o == y.frames[Len(y.frames)]
                  IN Handle(y, dir, g2, o.pat[o.i])
Advance(x, dir, g) ==
  LET f == x.frames[Len(x.frames)]
  IN IF f.i = 0
     THEN LET l == IF dir = "enc" THEN "root" ELSE "o"
          IN IF Shared THEN <<PutTop(x, [f EXCEPT !.i = 1]), [g EXCEPT ![dir] = Append(@, l)]>>
             ELSE <<PutTop(x, [f EXCEPT !.i = 1, !.log = <<l>>]), g>>
     ELSE IF f.pat[f.i] \in {"(", "["}
          THEN <<[x EXCEPT !.frames = Append(@, Frame(InnerPat(dir, f.pat[f.i])))], g>>
     ELSE Handle(x, dir, g, f.pat[f.i])

Step(c) ==
  LET x == call[c]
      dir == job[c][1]
      a == IF x.st = "new"
           THEN <<[x EXCEPT !.st = "run", !.frames = <<Frame(job[c][2])>>],
                  IF Shared /\ \A d \in 1..Calls : d = c \/ call[d].st # "run"
                  THEN [glog EXCEPT ![dir] = <<>>] ELSE glog>>
           ELSE Advance(x, dir, glog)
  IN /\ x.st # "done"
     /\ call' = [call EXCEPT ![c] = a[1]]
     /\ glog' = a[2]
     /\ hist' = Append(hist, c)
     /\ UNCHANGED job

Result(c) == [ok |-> call[c].ok, out |-> call[c].out, inner |-> call[c].inner]
Done == /\ \A c \in 1..Calls : call[c].st = "done"
        /\ hist # <<0>> /\ hist' = <<0>>
        /\ PrintT("T " \o ToJson([job |-> job, hist |-> hist,
                                  res |-> [c \in 1..Calls |-> Result(c)]]))
        /\ UNCHANGED <<job, call, glog>>
Next == (\E c \in 1..Calls : Step(c)) \/ Done
Spec == Init /\ [][Next]_vars

Right == \A c \in 1..Calls : call[c].st = "done" => Result(c) = Pure(job[c])
===============================================================================
