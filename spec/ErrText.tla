-------------------------------- MODULE ErrText --------------------------------
(***************************************************************************)
(* How a Python exception is turned into a JavaScript error.               *)
(*                                                                         *)
(* An exception is a record                                                *)
(*   only    the lines describing it (type, message, notes)                *)
(*   frames  its traceback, outermost call first: [name, file, line, col], *)
(*           where file, line and col are <<>> or <<text>>                 *)
(*   cause   <<>> or <<exception>>: raised from                            *)
(*   ctx     <<>> or <<exception>>: raised while handling                  *)
(*   sup     1 when the context is not shown                               *)
(*   subs    the exceptions of a group                                     *)
(*                                                                         *)
(* The error's message is the line naming the exception type; its stack    *)
(* text lists the most recent call first, followed by the exceptions of a  *)
(* group and the exceptions being handled; its cause is the cause.         *)
(***************************************************************************)
EXTENDS Integers, Sequences, TLC

Blank(ch) == ch \in {" ", "\n", "\t", "\r"}
RECURSIVE RStrip(_)
RStrip(s) == IF Len(s) > 0 /\ Blank(SubSeq(s, Len(s), Len(s)))
             THEN RStrip(SubSeq(s, 1, Len(s) - 1)) ELSE s
Indented(s) == Len(s) > 0 /\ SubSeq(s, 1, 1) = " "
RECURSIVE AllBlank(_)
AllBlank(s) == s = "" \/ (Blank(SubSeq(s, 1, 1)) /\ AllBlank(SubSeq(s, 2, Len(s))))
RECURSIVE LStripSpaces(_)
LStripSpaces(s) == IF Indented(s) THEN LStripSpaces(SubSeq(s, 2, Len(s))) ELSE s

RECURSIVE Cat(_)
Cat(ss) == IF ss = <<>> THEN "" ELSE Head(ss) \o Cat(Tail(ss))
RECURSIVE CatSeq(_)
CatSeq(ss) == IF ss = <<>> THEN <<>> ELSE Head(ss) \o CatSeq(Tail(ss))

Or(x, default) == IF x = <<>> THEN default ELSE x[1]
FrameLine(f) ==
  "    at " \o f.name \o " " \o
  (IF f.file = <<>> /\ f.line = <<>> /\ f.col = <<>> THEN "(unknown location)"
   ELSE "(" \o Or(f.file, "<unknown>") \o ":" \o Or(f.line, "<unknown>") \o ":"
        \o Or(f.col, "<unknown>") \o ")") \o "\n"

Reverse(s) == [i \in 1..Len(s) |-> s[Len(s) + 1 - i]]
RECURSIVE Path(_)
Path(p) == IF Len(p) = 1 THEN ToString(p[1])
           ELSE Path(SubSeq(p, 1, Len(p) - 1)) \o "." \o ToString(p[Len(p)])

Prefixed(ls, first) ==
  [i \in 1..Len(ls) |->
     LET t == (IF i = 1 THEN first ELSE "    ") \o ls[i]
     IN IF AllBlank(t) THEN LStripSpaces(t) ELSE t]

\* The exceptions being handled, innermost first, as far as they are shown
RECURSIVE Contexts(_)
Contexts(e) == IF e.ctx = <<>> \/ e.sup = 1 THEN <<>>
               ELSE <<e.ctx[1]>> \o Contexts(e.ctx[1])

RECURSIVE Own(_, _), Lines(_, _)
Own(e, path) ==
  e.only
  \o [i \in 1..Len(e.frames) |-> FrameLine(Reverse(e.frames)[i])]
  \o CatSeq([i \in 1..Len(e.subs) |->
       LET p == Append(path, i)
       IN <<"\n">> \o Prefixed(Lines(e.subs[i], p), "  ↳ " \o Path(p) \o ": ")])
Lines(e, path) ==
  LET cs == Contexts(e)
  IN Own(e, path) \o
     CatSeq([i \in 1..Len(cs) |->
       <<"\n", "The above exception occurred while handling another exception:\n", "\n">>
       \o Own(cs[i], <<>>)])

Message(e) == LET ls == SelectSeq(e.only, LAMBDA l : ~Indented(l))
              IN IF ls = <<>> THEN <<>> ELSE <<RStrip(ls[1])>>

RECURSIVE ErrorOf(_)
ErrorOf(e) == [name |-> "Error", message |-> Message(e),
               stack |-> <<RStrip(Cat(Lines(e, <<>>)))>>,
               cause |-> IF e.cause = <<>> THEN <<>> ELSE <<ErrorOf(e.cause[1])>>]
================================================================================
