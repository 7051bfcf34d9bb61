-------------------------------- MODULE Engine --------------------------------
(***************************************************************************)
(* The threaded engine: how the threads which evaluate a graph of arrays   *)
(* pass chunks along, end, and tell each other about failures (properties  *)
(* C10, C11 and C12).                                                      *)
(*                                                                         *)
(* A node of the graph either reads a source ("read"), aggregates the      *)
(* chunks of an input over its axis ("agg", g input chunks give a result), *)
(* combines the chunks of its inputs in lock-step ("elem"), or collects a  *)
(* result ("sink").  Each has a thread, and each input of a node a queue   *)
(* of at most Cap items, which are the numbers of chunks, FIN or ABORT.    *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt, FiniteSetsExt, TLC, Json

CONSTANTS Cap,          \* the size of the queues
          Chunks,       \* how many chunks each source is divided into
          MaxFails,     \* how many threads may fail
          Lazy,         \* aggregates emit a result when the next one begins
          OneSchedule,  \* look at one interleaving only (see Persistent)
          Graphs,       \* the graphs to be considered (as defined below)
          Emit          \* print the graphs, for the library to evaluate

FIN == 0
ABORT == -1

(***************************************************************************)
(* A graph is a sequence of nodes [k |-> kind, in |-> inputs, g |-> chunks *)
(* of the input for one of the output]; inputs come before their users.    *)
(***************************************************************************)
VARIABLES graph, q, mode, got, item, pos, count, result, fails

vars == <<graph, q, mode, got, item, pos, count, result, fails>>

Node == DOMAIN graph
Ins(n) == graph[n].in
Slots == {<<n, j>> : n \in Node, j \in 1..3}
(* The queues which a node puts its chunks into, in the order made. *)
OutsOf(gr, n) == SetToSortSeq({<<c, j>> \in (DOMAIN gr) \X (1..3) :
                                   j \in DOMAIN gr[c].in /\ gr[c].in[j] = n},
                              LAMBDA x, y : x[1] < y[1] \/ (x[1] = y[1] /\ x[2] < y[2]))
Outs(n) == OutsOf(graph, n)

(* How many chunks a node has to emit. *)
RECURSIVE Total(_, _)
Total(gr, n) == IF gr[n].k = "read" THEN Chunks
                ELSE Total(gr, gr[n].in[1]) \div gr[n].g

(***************************************************************************)
(* Families of graphs                                                      *)
(***************************************************************************)
Source == [k |-> "read", in |-> <<>>, g |-> 1]
Agg(i, g) == [k |-> "agg", in |-> <<i>>, g |-> g]
Elem(is) == [k |-> "elem", in |-> is, g |-> 1]
Sink(i) == [k |-> "sink", in |-> <<i>>, g |-> 1]

(* All ways to add a node to a graph. *)
Extensions(gr, divisors) ==
    LET n == Len(gr)
        nodes == {Source}
                 \cup {Agg(i, g) : i \in 1..n, g \in divisors}
                 \cup {Elem(<<i>>) : i \in 1..n}
                 \cup {Elem(<<i, j>>) : i \in 1..n, j \in 1..n}
    IN  {Append(gr, x) : x \in {x \in nodes :
            /\ x.k = "agg" => Total(gr, x.in[1]) % x.g = 0
            /\ x.k = "elem" => \A j \in DOMAIN x.in : Total(gr, x.in[j]) = Total(gr, x.in[1])}}

RECURSIVE Inner(_, _)
Inner(n, divisors) == IF n = 1 THEN {<<Source>>}
                      ELSE UNION {Extensions(gr, divisors) : gr \in Inner(n - 1, divisors)}

(* Results are asked for of the nodes which nothing uses, and some others. *)
Unused(gr) == {i \in DOMAIN gr : \A c \in DOMAIN gr : ~Contains(gr[c].in, i)}
WithSinks(gr, more) ==
    LET asked == Unused(gr) \cup more
    IN  gr \o SetToSeq({Sink(i) : i \in asked})

AllGraphs(n, divisors, joint) ==
    UNION {{WithSinks(gr, more) : more \in {m \in SUBSET DOMAIN gr : Cardinality(m) <= joint}}
           : gr \in Inner(n, divisors)}

(* The same aggregations in two orders, combined. *)
RECURSIVE Chain(_, _, _)
Chain(gr, i, gs) == IF gs = <<>> THEN gr
                    ELSE Chain(Append(gr, Agg(i, Head(gs))), Len(gr) + 1, Tail(gs))
Crossed(gs, hs) ==
    LET a == Chain(<<Source>>, 1, gs)
        b == Chain(Append(a, Agg(1, Head(hs))), Len(a) + 1, Tail(hs))
    IN  b \o <<Elem(<<Len(a), Len(b)>>), Sink(Len(b) + 1)>>

(***************************************************************************)
(* The threads.  What a thread does between two operations on queues is    *)
(* part of the step of the first of them, since no other thread sees it.   *)
(***************************************************************************)
(* Emit an item (to all users), and then go on. *)
Emission(n, x) == /\ item' = [item EXCEPT ![n] = x]
                  /\ pos' = [pos EXCEPT ![n] = 1]
                  /\ mode' = [mode EXCEPT ![n] = "put"]

(* A sink has no users, but remembers that its result is lost. *)
Abort(n) == IF graph[n].k = "sink"
            THEN /\ result' = [result EXCEPT ![n] = "lost"]
                 /\ mode' = [mode EXCEPT ![n] = "discard"]
                 /\ pos' = [pos EXCEPT ![n] = 1]
                 /\ UNCHANGED item
            ELSE Emission(n, ABORT) /\ UNCHANGED result

Fail(n) == /\ Cardinality(fails) < MaxFails
           /\ fails' = fails \cup {n}
           /\ Abort(n)
           /\ UNCHANGED count

(* A source. *)
Read(n) ==
    /\ mode[n] = "read"
    /\ IF count[n] = Chunks
       THEN Emission(n, FIN) /\ UNCHANGED <<count, result, fails>>
       ELSE \/ /\ count' = [count EXCEPT ![n] = @ + 1]
               /\ Emission(n, count[n] + 1)
               /\ UNCHANGED <<result, fails>>
            \/ Fail(n)
    /\ UNCHANGED <<graph, q, got>>

(* What the inputs xs have given is processed. *)
Process(n, xs) ==
    IF Contains(xs, ABORT)
    THEN Abort(n) /\ UNCHANGED <<count, fails>>
    ELSE IF Contains(xs, FIN)
    THEN IF graph[n].k = "sink"
         THEN /\ result' = [result EXCEPT ![n] = "complete"]
              /\ mode' = [mode EXCEPT ![n] = "done"]
              /\ UNCHANGED <<item, pos, count, fails>>
         ELSE /\ Emission(n, IF Lazy /\ graph[n].k = "agg" THEN count[n] \div graph[n].g ELSE FIN)
              /\ UNCHANGED <<count, result, fails>>
    ELSE \/ Fail(n)
         \/ LET c == count[n] + 1
                g == graph[n].g
                due == IF graph[n].k /= "agg" THEN c
                       ELSE IF Lazy THEN IF c > 1 /\ c % g = 1 % g THEN (c - 1) \div g ELSE 0
                       ELSE IF c % g = 0 THEN c \div g ELSE 0
            IN  /\ count' = [count EXCEPT ![n] = c]
                /\ IF graph[n].k = "sink" \/ due = 0
                   THEN mode' = [mode EXCEPT ![n] = "get"] /\ UNCHANGED <<item, pos>>
                   ELSE Emission(n, due)
                /\ UNCHANGED <<result, fails>>

Get(n) ==
    /\ mode[n] = "get"
    /\ LET old == IF Len(got[n]) = Len(Ins(n)) THEN <<>> ELSE got[n]
           slot == <<n, Len(old) + 1>>
       IN  /\ q[slot] /= <<>>
           /\ q' = [q EXCEPT ![slot] = Tail(@)]
           /\ got' = [got EXCEPT ![n] = Append(old, Head(q[slot]))]
           /\ IF Len(old) + 1 = Len(Ins(n))
              THEN Process(n, Append(old, Head(q[slot])))
              ELSE UNCHANGED <<mode, item, pos, count, result, fails>>
    /\ UNCHANGED graph

Put(n) ==
    /\ mode[n] = "put"
    /\ LET slot == Outs(n)[pos[n]]
           more == pos[n] < Len(Outs(n))
           last == got[n] /= <<>> /\ Contains(got[n], FIN) /\ ~Contains(got[n], ABORT)
       IN  /\ Len(q[slot]) < Cap
           /\ q' = [q EXCEPT ![slot] = Append(@, item[n])]
           /\ pos' = [pos EXCEPT ![n] = IF more THEN @ + 1 ELSE 1]
           /\ item' = [item EXCEPT ![n] = IF ~more /\ last THEN FIN ELSE @]
           /\ mode' = [mode EXCEPT ![n] =
                 IF more THEN "put"
                 ELSE IF item[n] = FIN THEN "done"
                 ELSE IF item[n] = ABORT
                      THEN IF graph[n].k = "read" THEN "done" ELSE "discard"
                 ELSE IF last THEN "put"         \* after the last lazy result
                 ELSE IF graph[n].k = "read" THEN "read" ELSE "get"]
    /\ UNCHANGED <<graph, got, count, result, fails>>

(* Consume what the inputs have yet to send, in lock-step. *)
Ended(x) == x = FIN \/ x = ABORT
Live(n) == {j \in DOMAIN Ins(n) : ~Ended(got[n][j])}
NextLive(n) == LET rest == {j \in Live(n) : j >= pos[n]}
               IN  IF rest = {} THEN Min(Live(n)) ELSE Min(rest)
Discard(n) ==
    /\ mode[n] = "discard"
    /\ IF Live(n) = {}
       THEN mode' = [mode EXCEPT ![n] = "done"] /\ UNCHANGED <<q, got, pos>>
       ELSE LET j == NextLive(n)
            IN  /\ q[<<n, j>>] /= <<>>
                /\ q' = [q EXCEPT ![<<n, j>>] = Tail(@)]
                /\ got' = [got EXCEPT ![n][j] = Head(q[<<n, j>>])]
                /\ pos' = [pos EXCEPT ![n] = j + 1]
                /\ UNCHANGED mode
    /\ UNCHANGED <<graph, item, count, result, fails>>

Init == /\ graph \in Graphs
        /\ q = [s \in Slots |-> <<>>]
        /\ mode = [n \in Node |-> IF graph[n].k = "read" THEN "read" ELSE "get"]
        /\ got = [n \in Node |-> <<>>]
        /\ item = [n \in Node |-> FIN]
        /\ pos = [n \in Node |-> 1]
        /\ count = [n \in Node |-> 0]
        /\ result = [n \in {n \in Node : graph[n].k = "sink"} |-> "none yet"]
        /\ fails = {}

Ready(n) == CASE mode[n] = "read" -> TRUE
              [] mode[n] = "put" -> Len(q[Outs(n)[pos[n]]]) < Cap
              [] mode[n] = "get" -> q[<<n, IF Len(got[n]) = Len(Ins(n)) THEN 1 ELSE Len(got[n]) + 1>>] /= <<>>
              [] mode[n] = "discard" -> IF Live(n) = {} THEN TRUE ELSE q[<<n, NextLive(n)>>] /= <<>>
              [] mode[n] = "done" -> FALSE

Step(n) == Read(n) \/ Get(n) \/ Put(n) \/ Discard(n)
AllDone == \A n \in Node : mode[n] = "done"
Next == \/ \E n \in Node : /\ Ready(n)
                           /\ OneSchedule => \A m \in 1..(n - 1) : ~Ready(m)
                           /\ Step(n)
        \/ AllDone /\ UNCHANGED vars

(* Every thread which can take a step will. *)
Spec == Init /\ [][Next]_vars
        /\ IF OneSchedule THEN WF_vars(Next)
           ELSE \A n \in 1..12 : WF_vars(n \in Node /\ Step(n))

(***************************************************************************)
(* What has to hold                                                        *)
(***************************************************************************)
(* Chunks which are combined are the same part of their arrays. *)
Aligned == \A n \in Node :
    LET x == {j \in DOMAIN got[n] : ~Ended(got[n][j])}
    IN  mode[n] \in {"get", "put"} /\ item[n] /= ABORT =>
            \A i, j \in x : got[n][i] = got[n][j]

(* A result which is handed out is complete. *)
Complete == \A n \in DOMAIN result :
    result[n] = "complete" => count[n] = Total(graph, Ins(n)[1])

(* A result is lost if, and only if, a failure affects it. *)
RECURSIVE Above(_, _)
Above(gr, n) == {n} \cup UNION {Above(gr, gr[n].in[j]) : j \in DOMAIN gr[n].in}
Truthful == AllDone => \A n \in DOMAIN result :
    (result[n] = "lost") <=> (Above(graph, n) \cap fails /= {})

(* Chunks which have been read, and not been taken by all of their users. *)
Waiting(n) == count[n] - Min({count[Outs(n)[j][1]] : j \in DOMAIN Outs(n)})
Bounded == \A n \in Node :
    (graph[n].k = "read" /\ fails = {}) => Waiting(n) <= Cap + 2

QueuesBounded == \A s \in Slots : Len(q[s]) <= Cap
NothingLeft == AllDone => \A s \in Slots : s[2] \in DOMAIN Ins(s[1]) => q[s] = <<>>

Terminates == <>AllDone

ReadyIsReady == \A n \in Node : Ready(n) <=> ENABLED Step(n)

(*
   No step of a thread keeps another from taking its own, and each has only
   one (but for failures): the order in which threads take steps does not
   matter to the outcome.  It is therefore enough to look at one order, with
   failures at all points, where there are too many to look at them all.
*)
Persistent == [][\A n \in Node :
    Ready(n) /\ <<mode[n], got[n], item[n], pos[n], count[n]>> = <<mode[n], got[n], item[n], pos[n], count[n]>>'
        => Ready(n)']_vars
Sequential == [][\A n, m \in Node :
    (n < m /\ <<mode[n], got[n], pos[n], item[n]>> /= <<mode[n], got[n], pos[n], item[n]>>')
        => <<mode[m], got[m], pos[m], item[m]>> = <<mode[m], got[m], pos[m], item[m]>>']_vars

(* For the replay into the library. *)
Replayed == ~(Emit /\ \A n \in Node : count[n] = 0 /\ mode[n] \in {"read", "get"} /\ got[n] = <<>>)
            \/ PrintT(<<"CASE", ToJson(graph)>>)
=============================================================================
