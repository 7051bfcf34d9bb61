----------------------------- MODULE BiggusTrace -----------------------------
(***************************************************************************)
(* Histories recorded from the real library, checked against Biggus.       *)
(* The file named by the environment variable TRACES has one history per   *)
(* line.  Every history is a behaviour: its state is the specification's   *)
(* heap after the steps made so far, and each step made is judged by the   *)
(* verdict which the specification gives on what the library answered.     *)
(* A step whose verdict is not empty is printed and the history goes on.   *)
(***************************************************************************)
EXTENDS Biggus, Json, IOUtils

Cases == ndJsonDeserialize(IOEnv.TRACES)

VARIABLES c,        \* the history
          k,        \* its next step
          heap,     \* the arrays which the specification says exist
          seen      \* what realising arrays has given: <<step, masked, cells>>

vars == <<c, k, heap, seen>>

Steps == Cases[c].steps

Init == /\ c \in 1..Len(Cases)
        /\ k = 1
        /\ heap = <<>>
        /\ seen = <<>>

(* Realising an array again gives the same, unless it has been assigned to. *)
Gets(s) == LET gets == IF s.op = "get" THEN <<s>>
                       ELSE IF s.op = "conc" THEN s.gets ELSE <<>>
           IN  SelectSeq(gets, LAMBDA g : ~g.out.skip /\ g.out.ok /\ Len(g.out.res) = Len(g.hs))

Key(g, j) == <<g.hs[j], g.masked>>
Given(gets) == FlattenSeq([q \in 1..Len(gets) |->
                   [j \in 1..Len(gets[q].hs) |->
                       <<Key(gets[q], j), gets[q].out.res[j].c, gets[q].out.res[j].sh>>]])

RepeatVerdict(given) ==
    LET all == seen \o given
    IN  Clause(\A q \in DOMAIN given :
                   LET j == SelectInSeq(all, LAMBDA r : r[1] = given[q][1])
                   IN  all[j] = given[q], "repeat")
NewSeen(s, given) ==
    IF s.op = "setitem" THEN <<>>
    ELSE seen \o SelectSeq(given, LAMBDA r : ~\E q \in DOMAIN seen : seen[q][1] = r[1])

Step == /\ k <= Len(Steps)
        /\ LET s == Steps[k]
               given == TLCEval(Given(Gets(s)))
               v == TLCEval(Verdict(heap, s) \cup RepeatVerdict(given))
           IN  /\ IF v = {} THEN TRUE ELSE PrintT(<<"FAIL", Cases[c].id, k, v>>)
               /\ heap' = TLCEval(NextHeap(heap, s))
               /\ seen' = TLCEval(NewSeen(s, given))
        /\ k' = k + 1
        /\ c' = c

Next == Step
Spec == Init /\ [][Next]_vars

HeapOK == TypeOK(heap)

Total == FoldLeft(LAMBDA n, h : n + Len(h.steps) + 1, 0, Cases)
(* Every step of every history has been made. *)
Complete == TLCGet("distinct") = Total
=============================================================================
