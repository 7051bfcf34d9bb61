------------------------------- MODULE Chunked -------------------------------
(***************************************************************************)
(* How the library computes aggregates chunk by chunk (properties C05, C06 *)
(* and C12): the division of an array into chunks, the order in which they *)
(* are visited, and the running aggregates.  That this gives what Cells    *)
(* defines the aggregates to be is checked for all data and all divisions  *)
(* of bounded size.                                                        *)
(*                                                                         *)
(* A lane is enough for the aggregates: the library treats all lanes of a  *)
(* chunk alike and independently of each other.  The arithmetic is exact.  *)
(***************************************************************************)
EXTENDS Cells, TLC, SequencesExt, FiniteSetsExt

CONSTANTS MaxLen,      \* the length of a lane
          Masked,      \* masked evaluation, or not
          Values,      \* the cells of a lane, other than masked ones
          MaxDims, MaxSize, MaxLimit   \* of an array which is divided

VARIABLES f, data, ddof, tol,   \* the aggregate (tol: mdtol of mean)
          masked,               \* masked evaluation
          pos,                  \* how much of the lane has been processed
          st,                   \* the state of the handler
          out                   \* <<>> or the result

vars == <<f, data, ddof, tol, masked, pos, st, out>>

Fs == {"count", "min", "max", "sum", "mean", "std", "var"}

(***************************************************************************)
(* The handlers: what a chunk does to their state.                         *)
(***************************************************************************)
NewHandler == [n |-> 0,          \* elements which are not masked
               nm |-> 0,         \* masked elements
               total |-> ZERO,
               res |-> <<>>,     \* the least (greatest) so far
               a |-> ZERO, q |-> ZERO]    \* Welford's mean and sum of squares

(* Welford's recurrence for one more element. *)
Welford(s, c) ==
    IF s.n = 0 THEN [s EXCEPT !.n = 1, !.a = c]
    ELSE LET k == s.n + 1
             d == Div(Sub(c, s.a), I(k))
         IN  [s EXCEPT !.n = k, !.a = Add(s.a, d),
                       !.q = Add(s.q, Mul(Mul(d, d), I(k * (k - 1))))]

(* The running mean starts anew as long as nothing has been there, with
   whatever is below the mask. *)
WelfordMasked(s, c) ==
    IF IsMasked(c) THEN IF s.n = 0 THEN [s EXCEPT !.a = ZERO] ELSE s
    ELSE Welford(s, c)

Merge(old, new, Op(_, _)) == IF old = <<>> THEN new
                             ELSE IF new = <<>> THEN old ELSE <<Op(old[1], new[1])>>

Process(s, chunk) ==
    LET u == Unmasked(chunk)
        seen == [s EXCEPT !.n = @ + Len(u), !.nm = @ + Len(chunk) - Len(u)]
    IN  CASE f = "count" -> seen
          [] f = "min" -> [seen EXCEPT !.res = Merge(@, IF u = <<>> THEN <<>> ELSE <<MinS(u)>>, MinC)]
          [] f = "max" -> [seen EXCEPT !.res = Merge(@, IF u = <<>> THEN <<>> ELSE <<MaxS(u)>>, MaxC)]
          [] f \in {"sum", "mean"} -> [seen EXCEPT !.total = Add(@, SumC(u))]
          [] f \in {"std", "var"} -> FoldLeft(WelfordMasked, s, chunk)

Finalise(s) ==
    CASE f = "count" -> I(s.n)
      [] s.n = 0 -> MASKED
      [] f \in {"min", "max"} -> s.res[1]
      [] f = "sum" -> s.total
      [] f = "mean" -> IF masked /\ s.nm * tol[2] > tol[1] * (s.n + s.nm) THEN MASKED
                       ELSE Div(s.total, I(s.n))
      [] f \in {"std", "var"} -> IF s.n > ddof THEN Div(s.q, I(s.n - ddof)) ELSE ANY

(***************************************************************************)
(* Behaviours: the chunks of a division, one after the other.              *)
(***************************************************************************)
Lanes == UNION {[1..n -> Values] : n \in 1..MaxLen}
MaskedLanes == UNION {[1..n -> Values \cup {MASKED}] : n \in 1..MaxLen}

Init == /\ f \in Fs
        /\ masked \in Masked
        /\ data \in IF masked THEN MaskedLanes ELSE Lanes
        /\ ddof \in IF f \in {"std", "var"} THEN {0, 1} ELSE {0}
        /\ tol \in IF f = "mean" /\ masked THEN {<<0, 1>>, <<1, 4>>, <<1, 2>>, <<1, 1>>}
                   ELSE {<<1, 1>>}
        /\ pos = 0
        /\ st = NewHandler
        /\ out = <<>>

Chunk == /\ pos < Len(data)
         /\ \E to \in (pos + 1)..Len(data) :
              /\ st' = Process(st, SubSeq(data, pos + 1, to))
              /\ pos' = to
         /\ UNCHANGED <<f, data, ddof, tol, masked, out>>

Complete == /\ pos = Len(data)
            /\ out = <<>>
            /\ out' = <<Finalise(st)>>
            /\ UNCHANGED <<f, data, ddof, tol, masked, pos, st>>

Next == Chunk \/ Complete
Spec == Init /\ [][Next]_vars

(***************************************************************************)
(* What has been seen so far determines the state: the division does not   *)
(* matter.                                                                 *)
(***************************************************************************)
Seen == SubSeq(data, 1, pos)
Running ==
    /\ f # "count" => st.total = (IF f \in {"sum", "mean"} THEN SumC(Unmasked(Seen)) ELSE ZERO)
    /\ st.n = Len(Unmasked(Seen))
    /\ (f \in {"std", "var"} /\ st.n > 0) =>
            IF ~FinOnly(Seen) /\ ~FinOnly(Unmasked(Seen)) THEN TRUE ELSE
            /\ st.a = MeanS(Unmasked(Seen))
            /\ st.q = VarS(Unmasked(Seen), Len(Unmasked(Seen)) - 1)

Defined == IF masked THEN AggMasked(f, data, ddof, tol) ELSE Agg(f, data, ddof)
Right == out # <<>> => (out[1] = Defined \/ IsAny(Defined))

(***************************************************************************)
(* The division of an array: each dimension is cut into slices, so that no *)
(* chunk is larger than the limit.  The last dimensions are kept whole.    *)
(***************************************************************************)
RECURSIVE CutsFrom(_, _, _, _)
CutsFrom(sh, d, n, limit) ==       \* dimensions 1..d; n: an item of dimension d
    IF d = 0 THEN <<>>
    ELSE LET size == sh[d]
             cuts == IF size * n <= limit THEN <<<<0, size>>>>
                     ELSE LET step == IF n > limit THEN 1 ELSE limit \div n
                              number == (size + step - 1) \div step
                          IN  [j \in 1..number |->
                                  <<(j - 1) * step, IF j * step > size THEN size ELSE j * step>>]
         IN  Append(CutsFrom(sh, d - 1, n * size, limit), cuts)
Cuts(sh, limit) == CutsFrom(sh, Len(sh), 1, limit)

(* The chunks in the order in which they are visited: the last dimension of
   the order varies fastest. *)
RECURSIVE Visit(_, _, _)
Visit(cuts, order, key) ==
    IF order = <<>> THEN <<key>>
    ELSE LET d == Head(order)
         IN  FlattenSeq([j \in 1..Len(cuts[d]) |->
                 Visit(cuts, Tail(order), [key EXCEPT ![d] = cuts[d][j]])])
ChunksOf(sh, limit, order) ==
    Visit(Cuts(sh, limit), order, [d \in 1..Len(sh) |-> <<0, 0>>])

RECURSIVE Volume(_)
Volume(key) == IF key = <<>> THEN 1 ELSE (key[1][2] - key[1][1]) * Volume(Tail(key))
Points(sh) == {p \in [1..Len(sh) -> 0..(MaxSize - 1)] : \A d \in 1..Len(sh) : p[d] < sh[d]}
Within(p, key) == \A d \in DOMAIN key : key[d][1] <= p[d] /\ p[d] < key[d][2]

Small(sh, limit, order) ==
    \A j \in DOMAIN ChunksOf(sh, limit, order) : Volume(ChunksOf(sh, limit, order)[j]) <= limit

Partition(sh, limit, order) ==
    LET ks == ChunksOf(sh, limit, order)
    IN  \A p \in Points(sh) : Cardinality({j \in DOMAIN ks : Within(p, ks[j])}) = 1

(* An aggregate along the dimension visited fastest gets all the chunks of a
   result one after the other, in order; the last of them ends the lane. *)
Without(key, d) == SubSeq(key, 1, d - 1) \o SubSeq(key, d + 1, Len(key))
Gathered(sh, limit, order) ==
    LET ks == ChunksOf(sh, limit, order)
        d == order[Len(order)]
    IN  \A j \in DOMAIN ks :
          IF ks[j][d][2] = sh[d]
          THEN \A i \in (j + 1)..Len(ks) : Without(ks[i], d) # Without(ks[j], d)
          ELSE /\ j < Len(ks)
               /\ Without(ks[j + 1], d) = Without(ks[j], d)
               /\ ks[j + 1][d][1] = ks[j][d][2]

Orders(n) == {o \in [1..n -> 1..n] : \A i, j \in 1..n : o[i] = o[j] => i = j}

ASSUME Division ==
    \A n \in 0..MaxDims : \A sh \in [1..n -> 0..MaxSize] : \A limit \in 1..MaxLimit :
      \A order \in Orders(n) :
         /\ Small(sh, limit, order)
         /\ Partition(sh, limit, order)
         /\ (n > 0 /\ \A d \in 1..n : sh[d] > 0) => Gathered(sh, limit, order)
=============================================================================
