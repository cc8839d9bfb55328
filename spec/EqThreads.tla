------------------------------- MODULE EqThreads -------------------------------
(* Comparisons run step by step in several threads, on the same graph: each   *)
(* step enters one pair of objects.  The guard of each thread is its own.     *)
EXTENDS Equality, Json
CONSTANTS Threads, Shared      \* Shared: one guard for all (must break Right)
VARIABLES g, job, todo, res, hist
vars == <<g, job, todo, res, hist>>
\* the chain, ring, and tree graphs compared (labels 1, 2)
n(c) == [k |-> 1, c |-> c]
Graphs == << <<n(<<2>>), n(<<1>>), n(<<4>>), n(<<3>>)>>,
             <<n(<<2>>), n(<<3>>), n(<<1>>)>>,
             <<n(<<2>>), n(<<3>>), n(<<>>), n(<<5>>), n(<<6>>), n(<<0>>)>>,
             <<n(<<2, 2>>), n(<<1>>), n(<<4, 5>>), n(<<3>>), n(<<3>>)>> >>
Jobs == << <<1, 3>>, <<3, 1>>, <<1, 2>>, <<1, 4>>, <<2, 3>> >>
\* todo: the pairs a thread has still to compare, each with the pairs around it
Init == /\ g \in {Graphs[i] : i \in 1..Len(Graphs)}
        /\ job \in [1..Threads -> {Jobs[i] : i \in 1..Len(Jobs)}]
        /\ \A t \in 1..Threads : job[t][1] <= Len(g) /\ job[t][2] <= Len(g)
        /\ todo = [t \in 1..Threads |-> <<[p |-> job[t], run |-> {}]>>]
        /\ res = [t \in 1..Threads |-> "running"] /\ hist = <<>>

Guard(t, run) == IF Shared THEN run \cup UNION {{todo[u][1].p} : u \in {v \in 1..Threads : v # t /\ hist # <<>> /\ todo[v] # <<>>}}
                 ELSE run
RECURSIVE Settle(_, _, _)      \* decide what needs no step; <<"no">>, <<"yes">> or <<"go", todo>>
Settle(gr, ws, t) ==
    IF ws = <<>> THEN <<"yes">>
    ELSE LET w == ws[1]  x == w.p[1]  y == w.p[2]  run == Guard(t, w.run)
         IN IF x <= 0 \/ y <= 0 THEN IF x = y THEN Settle(gr, Tail(ws), t) ELSE <<"no">>
            ELSE IF x = y THEN Settle(gr, Tail(ws), t)
            ELSE IF \E p \in run : p[1] = x \/ p[2] = y
                 THEN IF <<x, y>> \in run THEN Settle(gr, Tail(ws), t) ELSE <<"no">>
            ELSE <<"go", ws>>
Enter(t) ==
    /\ res[t] = "running"
    /\ LET s == Settle(g, todo[t], t)
       IN IF s[1] # "go" THEN /\ res' = [res EXCEPT ![t] = s[1]] /\ todo' = [todo EXCEPT ![t] = <<>>]
                              /\ hist' = hist
          ELSE LET w == s[2][1]  x == w.p[1]  y == w.p[2]  in == w.run \cup {w.p}
                   kids == [l \in 1..Cardinality(DOMAIN g[x].c) |-> [p |-> <<g[x].c[l], g[y].c[l]>>, run |-> in]]
               IN IF DOMAIN g[x].c # DOMAIN g[y].c
                  THEN /\ res' = [res EXCEPT ![t] = "no"] /\ todo' = [todo EXCEPT ![t] = <<>>] /\ hist' = hist
                  ELSE /\ todo' = [todo EXCEPT ![t] = kids \o Tail(s[2])]
                       /\ hist' = Append(hist, t) /\ res' = res
    /\ UNCHANGED <<g, job>>
Done == /\ \A t \in 1..Threads : res[t] # "running"
        /\ hist # <<0>> /\ hist' = <<0>>
        /\ PrintT("T " \o ToJson([g |-> [x \in 1..Len(g) |-> g[x].c], job |-> job, hist |-> hist, res |-> res]))
        /\ UNCHANGED <<g, job, todo, res>>
Next == (\E t \in 1..Threads : Enter(t)) \/ Done
Spec == Init /\ [][Next]_vars
Right == \A t \in 1..Threads : res[t] = "running" \/ (res[t] = "yes") = Equal(g, job[t][1], job[t][2])
================================================================================
