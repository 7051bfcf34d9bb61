------------------------------- MODULE KeyMerge -------------------------------
(***************************************************************************)
(* How the library finds the groups along one dimension: it walks along    *)
(* the keys of all the inputs at once, and ends a group wherever the       *)
(* current keys of all inputs stop at the same place.  Checked here, for   *)
(* all partitions of dimensions up to a length, against KeyGroups; each    *)
(* of them is then also given to the library.                              *)
(***************************************************************************)
EXTENDS KeyGroups, TLC, Json

CONSTANTS MaxLength, Inputs, Emit

VARIABLES len, ins, start, current, groups

vars == <<len, ins, start, current, groups>>

(* The keys between the cuts, which are a set of positions within. *)
Keys(n, cuts) == LET c == SetToSortSeq(cuts \cup {0, n}, <)
                 IN  [j \in 1..(Len(c) - 1) |-> <<c[j], c[j + 1]>>]

Init == /\ len \in 1..MaxLength
        /\ ins \in [1..Inputs -> {Keys(len, cuts) : cuts \in SUBSET (1..(len - 1))}]
        /\ start = [i \in 1..Inputs |-> 1]
        /\ current = start
        /\ groups = <<>>

Done == \A i \in 1..Inputs : current[i] > Len(ins[i])
Stop(i) == ins[i][current[i]][2]

EndGroup ==
    /\ \A i \in 1..Inputs : Stop(i) = Stop(1)
    /\ groups' = Append(groups,
            [r |-> <<<<ins[1][start[1]][1], Stop(1)>>>>,
             ins |-> [i \in 1..Inputs |-> [q \in 1..(current[i] - start[i] + 1) |->
                                              <<ins[i][start[i] + q - 1]>>]]])
    /\ current' = [i \in 1..Inputs |-> current[i] + 1]
    /\ start' = current'

Extend ==
    /\ \E i \in 1..Inputs : Stop(i) /= Stop(1)
    /\ LET least == Min({Stop(i) : i \in 1..Inputs})
       IN  current' = [i \in 1..Inputs |-> IF Stop(i) = least THEN current[i] + 1 ELSE current[i]]
    /\ UNCHANGED <<start, groups>>

Next == /\ ~Done
        /\ EndGroup \/ Extend
        /\ UNCHANGED <<len, ins>>

Spec == Init /\ [][Next]_vars /\ WF_vars(Next)

(* The walk never leaves the keys, since all end with the dimension ... *)
InRange == Done \/ \A i \in 1..Inputs : current[i] <= Len(ins[i])
(* ... groups start where the last one has ended ... *)
Aligned == Done \/ \A i, j \in 1..Inputs : ins[i][start[i]][1] = ins[j][start[j]][1]
(* ... and what it finds is right. *)
Correct == Done => Verdict(<<len>>, [i \in 1..Inputs |-> [q \in DOMAIN ins[i] |-> <<ins[i][q]>>]],
                           groups) = {}
Terminates == <>Done

(* For the replay into the library. *)
Replayed == ~(Done /\ Emit) \/ PrintT(<<"CASE", ToJson([len |-> len, ins |-> ins])>>)
=============================================================================
