---------------------------------- MODULE Repr ----------------------------------
(* What the repr of a graph of JS values shows, and the scopes of its settings.*)
(*                                                                            *)
(* Contents.  A graph is a sequence of nodes                                  *)
(*   [head, max, fresh, parts]: parts is a sequence of sequences of entries,  *)
(*   an entry is a sequence of items [k, v]: k = "t" fixed text (a name or an *)
(*   index), "l" a leaf, "n" the node v.  max bounds the entries shown (-1: no*)
(*   bound), first come first shown; a fresh node shows its items at the full *)
(*   level (types that are shown by their own repr).                          *)
(* The repr is abstracted to the sequence of texts shown, "~" is the fill     *)
(* value that stands for what limits or a cycle elide.                        *)
(*                                                                            *)
(* Scopes.  State [active, insts, scopes]: insts are the settings objects made*)
(* so far, active is the index of the one in force, scopes are the opened     *)
(* scopes [own, initial, force, status].                                      *)
EXTENDS Integers, Sequences, TLC, SequencesExt

Cat(ss) == FoldLeft(LAMBDA a, b : a \o b, <<>>, ss)
Least(a, b) == IF a < b THEN a ELSE b

RECURSIVE Toks(_, _, _, _, _)
Toks(g, maxlevel, n, level, path) ==
  IF level <= 0 \/ n \in path THEN <<"~">>
  ELSE LET nd == g[n]
           below == IF nd.fresh THEN maxlevel ELSE level - 1
           Item(it) == CASE it.k = "t" -> <<it.v>>
                         [] it.k = "l" -> IF below <= 0 /\ ~nd.fresh THEN <<"~">> ELSE <<it.v>>
                         [] it.k = "n" -> Toks(g, maxlevel, it.v, below, path \cup {n})
           Entry(e) == Cat([j \in 1..Len(e) |-> Item(e[j])])
           \* how many entries precede part p
           Before(p) == FoldLeft(LAMBDA a, q : a + Len(q), 0, SubSeq(nd.parts, 1, p - 1))
           Part(p) == LET es == nd.parts[p]
                          room == IF nd.max < 0 THEN Len(es)
                                  ELSE IF nd.max > Before(p) THEN nd.max - Before(p) ELSE 0
                          shown == Least(Len(es), room)
                      IN Cat([j \in 1..shown |-> Entry(es[j])])
                         \o (IF Len(es) > room THEN <<"~">> ELSE <<>>)
       IN (IF nd.head = "" THEN <<>> ELSE <<nd.head>>) \o Cat([p \in 1..Len(nd.parts) |-> Part(p)])

Shown(g, maxlevel, n) == Toks(g, maxlevel, n, maxlevel, {})

\* Everything reachable is shown unless something is elided.
RECURSIVE Reach(_, _)
Reach(g, s) == LET t == s \cup {n \in 1..Len(g) : \E m \in s : \E p \in 1..Len(g[m].parts) :
                                  \E e \in Range(g[m].parts[p]) : \E it \in Range(e) :
                                     it.k = "n" /\ it.v = n}
               IN IF t = s THEN s ELSE Reach(g, t)
Texts(g, n) == {g[n].head} \cup {it.v : it \in {it \in UNION {Range(e) : e \in
                   UNION {Range(g[n].parts[p]) : p \in 1..Len(g[n].parts)}} : it.k # "n"}}
ShowsAll(g, maxlevel, n) ==
  LET s == Shown(g, maxlevel, n)
  IN "~" \in Range(s) \/ UNION {Texts(g, m) : m \in Reach(g, {n})} \subseteq Range(s)

-----------------------------------------------------------------------------
(* Scopes *)
\* ov: field -> <<>> (passed as None) or <<value>>.  None inherits, except for the indent, for
\* which it is a value.
Merge(base, ov) == [f \in DOMAIN base |->
                      IF f \notin DOMAIN ov THEN base[f]
                      ELSE IF ov[f] = <<>> THEN (IF f = "indent" THEN "none" ELSE base[f])
                      ELSE ov[f][1]]

Start(default) == [active |-> 1, insts |-> <<default>>, scopes |-> <<>>]

SetActive(s, a) == [s EXCEPT !.active = a]

ScopeApply(s, op) ==
  CASE op.o = "enter" ->          \* settings changed by keywords
         IF ~(DOMAIN op.ov \subseteq DOMAIN s.insts[1]) THEN [s |-> s, r |-> <<"TypeError">>]
         ELSE [s |-> [active |-> Len(s.insts) + 1,
                      insts |-> Append(s.insts, Merge(s.insts[s.active], op.ov)),
                      scopes |-> Append(s.scopes, [own |-> Len(s.insts) + 1, initial |-> s.active,
                                                   force |-> op.force, open |-> TRUE])],
               r |-> <<"ok">>]
    [] op.o = "new" ->            \* a settings object of one's own
         [s |-> [s EXCEPT !.insts = Append(@, Merge(op.base, op.ov))], r |-> <<"ok">>]
    [] op.o = "use" ->            \* a scope of an existing settings object
         [s |-> [s EXCEPT !.active = op.inst,
                          !.scopes = Append(@, [own |-> op.inst, initial |-> s.active,
                                                force |-> op.force, open |-> TRUE])],
          r |-> <<"ok">>]
    [] op.o = "leave" ->
         LET sc == s.scopes[op.scope]
             t == [s EXCEPT !.scopes[op.scope].open = FALSE]
             \* a scope opened later with the same settings object cannot be told apart
             dup == \E j \in op.scope + 1..Len(s.scopes) : s.scopes[j].open /\ s.scopes[j].own = sc.own
             restore == sc.force \/ s.active = sc.own
         IN [s |-> IF restore THEN SetActive(t, sc.initial) ELSE t,
             r |-> <<IF restore THEN "restored" ELSE "warned", IF op.fail THEN "propagated" ELSE "ok">>,
             amb |-> dup /\ ~sc.force]
    [] op.o = "probe" -> [s |-> s, r |-> s.insts[s.active]]
    [] op.o = "probeown" -> [s |-> s, r |-> s.insts[op.inst]]

=============================================================================
