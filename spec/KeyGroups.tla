------------------------------ MODULE KeyGroups ------------------------------
(***************************************************************************)
(* Grouping the chunk keys of several inputs of one shape (property C18).  *)
(*                                                                         *)
(* Each input is a sequence of keys; a key is a sequence with an interval  *)
(* <<a, b>> (the elements a .. b - 1) for each dimension.  A grouping is a *)
(* sequence of groups [r |-> region, ins |-> for each input its keys].     *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt, FiniteSetsExt

Clause(ok, name) == IF ok THEN {} ELSE {name}

Volume(k) == FoldSeq(LAMBDA i, n : (i[2] - i[1]) * n, 1, k)
Inside(k, r) == \A d \in DOMAIN r : r[d][1] <= k[d][1] /\ k[d][2] <= r[d][2]
Whole(sh) == [d \in DOMAIN sh |-> <<0, sh[d]>>]
Sound(k, sh) == Len(k) = Len(sh) /\ \A d \in DOMAIN k : k[d][1] <= k[d][2]

RECURSIVE Cells(_)
Cells(k) == IF k = <<>> THEN {<<>>}
            ELSE LET rest == Cells(Tail(k))
                 IN  {<<q>> \o c : q \in k[1][1]..(k[1][2] - 1), c \in rest}

(* A set of boxes divides up a region. *)
Divides(boxes, r) ==
    /\ \A k \in boxes : Inside(k, r)
    /\ MapThenSumSet(Volume, boxes) = Volume(r)
    /\ Cardinality(UNION {Cells(k) : k \in boxes}) = Volume(r)

(* Cutting a group at c along dimension d would cut none of its keys. *)
Splits(g, d, c) == \A j \in DOMAIN g.ins : \A q \in DOMAIN g.ins[j] :
                       c <= g.ins[j][q][d][1] \/ g.ins[j][q][d][2] <= c

(*
   What has to hold of the groups of the keys of inputs, for arrays of the
   shape sh.
*)
Verdict(sh, ins, groups) ==
    IF \E j \in DOMAIN groups : ~Sound(groups[j].r, sh) \/ Len(groups[j].ins) /= Len(ins)
       \/ \E i \in DOMAIN ins : \E q \in DOMAIN groups[j].ins[i] : ~Sound(groups[j].ins[i][q], sh)
    THEN {"malformed"}
    ELSE LET n == Len(groups)
             union(i) == UNION {ToSet(groups[j].ins[i]) : j \in 1..n}
             total(i) == FoldSeq(LAMBDA g, m : Cardinality(ToSet(g.ins[i])) + m, 0, groups)
         IN  Clause(/\ Divides({groups[j].r : j \in 1..n}, Whole(sh))
                    /\ Cardinality({groups[j].r : j \in 1..n}) = n, "groups")
             \cup Clause(\A i \in DOMAIN ins : LET u == union(i)
                                              IN  u = ToSet(ins[i]) /\ total(i) = Cardinality(u),
                         "keys not in one group")
             \cup Clause(\A i \in DOMAIN ins : \A j \in DOMAIN groups :
                             Divides(ToSet(groups[j].ins[i]), groups[j].r), "region not covered")
             \cup Clause(\A j \in DOMAIN groups : \A d \in DOMAIN sh :
                             \A c \in (groups[j].r[d][1] + 1)..(groups[j].r[d][2] - 1) :
                                 ~Splits(groups[j], d, c), "groups too large")
=============================================================================
