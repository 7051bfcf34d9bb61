------------------------------ MODULE NDArray ------------------------------
(***************************************************************************)
(* Shapes, orthogonal indexing and index maps.                             *)
(*                                                                         *)
(* The elements of an array of shape sh are numbered 0 .. Size(sh)-1 in    *)
(* row-major order.  Every view of an array is described by an index map:  *)
(* the shape of the view, and for each of its elements in row-major order  *)
(* the number of the element of the viewed array which it shows.           *)
(*                                                                         *)
(* A key is one of                                                         *)
(*    [k |-> "i", i |-> n]                an integer                       *)
(*    [k |-> "s", a |-> x, b |-> y, c |-> z]  a slice; x, y, z are <<>>    *)
(*                                        for None or <<n>>                *)
(*    [k |-> "t", t |-> <<...>>]          a tuple or array of integers     *)
(*    [k |-> "m", t |-> <<...>>]          a boolean mask                   *)
(*    [k |-> "e"]                         Ellipsis                         *)
(*    [k |-> "n"]                         a new axis                       *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt

RECURSIVE Size(_)
Size(sh) == IF sh = <<>> THEN 1 ELSE Head(sh) * Size(Tail(sh))

(* Row-major strides. *)
Strides(sh) == [d \in 1..Len(sh) |-> Size(SubSeq(sh, d + 1, Len(sh)))]

(* The row-major list of sums of one offset from each list of offsets. *)
RECURSIVE Cross(_)
Cross(sel) ==
    IF sel = <<>> THEN <<0>>
    ELSE LET rest == Cross(Tail(sel))
             h == Head(sel)
             n == Len(rest)
         IN  [j \in 1..(Len(h) * n) |-> h[((j - 1) \div n) + 1]
                                        + rest[((j - 1) % n) + 1]]

(* The multi-index of element number q. *)
Unravel(q, sh) == LET st == Strides(sh) IN
                  [d \in 1..Len(sh) |-> (q \div st[d]) % sh[d]]

RECURSIVE Dot(_, _)
Dot(a, b) == IF a = <<>> THEN 0 ELSE Head(a) * Head(b) + Dot(Tail(a), Tail(b))
Ravel(ix, sh) == Dot(ix, Strides(sh))

Take(map, seq) == IF seq = <<>> THEN <<>> ELSE [j \in 1..Len(map) |-> seq[map[j] + 1]]

(***************************************************************************)
(* Python slices                                                           *)
(***************************************************************************)
Clip(x, lo, hi) == IF x < lo THEN lo ELSE IF x > hi THEN hi ELSE x

SliceStep(key) == IF key.c = <<>> THEN 1 ELSE key.c[1]

(* <<start, stop>> as given by Python's slice.indices(n). *)
SliceBounds(key, n) ==
    LET step == SliceStep(key)
        lo == IF step > 0 THEN 0 ELSE -1
        hi == IF step > 0 THEN n ELSE n - 1
        fix(x) == Clip(IF x < 0 THEN x + n ELSE x, lo, hi)
        start == IF key.a = <<>> THEN IF step > 0 THEN lo ELSE hi ELSE fix(key.a[1])
        stop  == IF key.b = <<>> THEN IF step > 0 THEN hi ELSE lo ELSE fix(key.b[1])
    IN  <<start, stop>>

SliceSel(key, n) ==
    LET step == SliceStep(key)
        bd == SliceBounds(key, n)
        len == IF step > 0
               THEN IF bd[2] > bd[1] THEN (bd[2] - bd[1] + step - 1) \div step ELSE 0
               ELSE IF bd[1] > bd[2] THEN (bd[1] - bd[2] - step - 1) \div (-step) ELSE 0
    IN  [j \in 1..len |-> bd[1] + (j - 1) * step]

(***************************************************************************)
(* Keys of one dimension                                                   *)
(***************************************************************************)
InRange(i, n) == -n <= i /\ i < n
Absolute(i, n) == IF i < 0 THEN i + n ELSE i

FullSlice == [k |-> "s", a |-> <<>>, b |-> <<>>, c |-> <<>>]

KeyOK(key, n) == CASE key.k = "i" -> InRange(key.i, n)
                   [] key.k = "s" -> SliceStep(key) # 0
                   [] key.k = "t" -> \A j \in DOMAIN key.t : InRange(key.t[j], n)
                   [] key.k = "m" -> Len(key.t) = n
                   [] OTHER -> FALSE

(* The positions of a dimension of length n which a (correct) key selects. *)
Select(key, n) == CASE key.k = "i" -> <<Absolute(key.i, n)>>
                    [] key.k = "s" -> SliceSel(key, n)
                    [] key.k = "t" -> [j \in 1..Len(key.t) |-> Absolute(key.t[j], n)]
                    [] key.k = "m" -> LET pos == [j \in 1..n |-> j - 1]
                                      IN  SelectSeq(pos, LAMBDA p : key.t[p + 1])

(***************************************************************************)
(* Sequences of keys                                                       *)
(***************************************************************************)
CountNonNew(keys) == Len(SelectSeq(keys, LAMBDA x : x.k # "n"))
CountReal(keys) == Len(SelectSeq(keys, LAMBDA x : x.k \notin {"n", "e"}))
FirstEllipsis(keys) == SelectInSeq(keys, LAMBDA x : x.k = "e")

(* Replace the Ellipsis by as many full slices as make up for missing keys;
   keys which are missing without an Ellipsis count as full slices at the
   end.  (More than one Ellipsis is not specified.) *)
Expand(keys, ndim) ==
    LET e == FirstEllipsis(keys)
        plain(s) == [j \in 1..Len(s) |-> IF s[j].k = "e" THEN FullSlice ELSE s[j]]
    IN  IF e = 0
        THEN keys \o [j \in 1..(ndim - CountReal(keys)) |-> FullSlice]
        ELSE LET left == SubSeq(keys, 1, e - 1)
                 right == plain(SubSeq(keys, e + 1, Len(keys)))
             IN  left \o [j \in 1..(ndim - CountNonNew(left) - CountNonNew(right))
                            |-> FullSlice] \o right

TooMany(keys, ndim) ==
    LET e == FirstEllipsis(keys)
    IN  IF e = 0 THEN CountReal(keys) > ndim
        ELSE CountNonNew(keys) - 1 > ndim

(* The dimension each key of an expanded sequence applies to. *)
RECURSIVE DimsOf(_, _)
DimsOf(keys, d) ==
    IF keys = <<>> THEN <<>>
    ELSE IF Head(keys).k = "n" THEN <<0>> \o DimsOf(Tail(keys), d)
    ELSE <<d>> \o DimsOf(Tail(keys), d + 1)

KeysOK(keys, sh) ==
    /\ ~TooMany(keys, Len(sh))
    /\ LET full == Expand(keys, Len(sh))
           dims == DimsOf(full, 1)
       IN  \A j \in DOMAIN full : full[j].k = "n" \/ KeyOK(full[j], sh[dims[j]])

(* Boolean masks which do not cover the whole dimension. *)
ShortMask(keys, sh) ==
    /\ ~TooMany(keys, Len(sh))
    /\ LET full == Expand(keys, Len(sh))
           dims == DimsOf(full, 1)
       IN  \E j \in DOMAIN full : full[j].k = "m" /\ Len(full[j].t) < sh[dims[j]]

(***************************************************************************)
(* Index maps                                                              *)
(***************************************************************************)
IdentityMap(sh) == [sh |-> sh, map |-> [j \in 1..Size(sh) |-> j - 1]]

(* Orthogonal indexing: each key selects from its dimension independently. *)
IndexMap(sh, keys) ==
    LET full == Expand(keys, Len(sh))
        real == SelectSeq(full, LAMBDA x : x.k # "n")
        st == Strides(sh)
        sel == [d \in 1..Len(sh) |-> Select(real[d], sh[d])]
        off == [d \in 1..Len(sh) |-> [j \in 1..Len(sel[d]) |-> sel[d][j] * st[d]]]
        dims == DimsOf(full, 1)
        kept == SelectSeq([j \in 1..Len(full) |-> j], LAMBDA j : full[j].k # "i")
        rsh == [j \in 1..Len(kept) |->
                  IF full[kept[j]].k = "n" THEN 1 ELSE Len(sel[dims[kept[j]]])]
    IN  [sh |-> rsh, map |-> Cross(off)]

(* perm[d] is the (0-based) dimension which becomes dimension d. *)
IsPerm(perm, n) == Len(perm) = n /\ {perm[j] : j \in DOMAIN perm} = 0..(n - 1)
PermuteMap(sh, perm) ==
    LET st == Strides(sh)
        n == Len(sh)
    IN  [sh |-> [d \in 1..n |-> sh[perm[d] + 1]],
         map |-> Cross([d \in 1..n |-> [j \in 1..sh[perm[d] + 1] |->
                                           (j - 1) * st[perm[d] + 1]]])]

(* Broadcast of an array of shape sh to shape full (as NumPy does). *)
CanBroadcastTo(sh, full) ==
    /\ Len(sh) <= Len(full)
    /\ \A d \in DOMAIN sh : LET f == full[d + Len(full) - Len(sh)]
                            IN  sh[d] = f \/ sh[d] = 1
BroadcastMap(sh, full) ==
    LET lead == Len(full) - Len(sh)
        st == Strides(sh)
    IN  [sh |-> full,
         map |-> Cross([d \in 1..Len(full) |-> [j \in 1..full[d] |->
                          IF d <= lead THEN 0
                          ELSE IF sh[d - lead] = 1 THEN 0
                          ELSE (j - 1) * st[d - lead]]])]

(* NumPy's broadcasting rules. *)
Pad(sh, n) == [d \in 1..n |-> IF d <= n - Len(sh) THEN 1 ELSE sh[d - n + Len(sh)]]
MaxN(a, b) == IF a > b THEN a ELSE b
Broadcastable(s1, s2) ==
    LET n == MaxN(Len(s1), Len(s2))
        p1 == Pad(s1, n)
        p2 == Pad(s2, n)
    IN  \A d \in 1..n : p1[d] = p2[d] \/ p1[d] = 1 \/ p2[d] = 1
BroadcastShape(s1, s2) ==
    LET n == MaxN(Len(s1), Len(s2))
        p1 == Pad(s1, n)
        p2 == Pad(s2, n)
    IN  [d \in 1..n |-> IF p1[d] = 1 THEN p2[d] ELSE p1[d]]

(* A map after another: mapA shows elements of what mapB shows. *)
ComposeMap(mapA, mapB) == Take(mapA, mapB)

RemoveDim(sh, ax) == SubSeq(sh, 1, ax) \o SubSeq(sh, ax + 2, Len(sh))   \* ax 0-based

(* For each element of the aggregate along the 0-based axis ax, the list of
   the elements it is made of. *)
Lanes(sh, ax) ==
    LET inner == Size(SubSeq(sh, ax + 2, Len(sh)))
        n == sh[ax + 1]
        rsh == RemoveDim(sh, ax)
    IN  [j \in 1..Size(rsh) |->
           LET q == j - 1
               base == (q \div inner) * (n * inner) + (q % inner)
           IN  [i \in 1..n |-> base + (i - 1) * inner]]
=============================================================================
