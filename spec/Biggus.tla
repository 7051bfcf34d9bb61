------------------------------- MODULE Biggus -------------------------------
(***************************************************************************)
(* Virtual arrays, as the users of biggus see them: a heap of virtual      *)
(* arrays which grows as they are built from sources and from each other,  *)
(* and what every observation of an array on the heap must give.           *)
(*                                                                         *)
(* An array on the heap is a record                                        *)
(*   st   "ok", "bad" (building it has to fail) or "void" (not specified)  *)
(*   sh   its shape                                                        *)
(*   dt   its dtype                                                        *)
(*   m    the cells of its masked realisation, in row-major order          *)
(*   p    the cells of its plain realisation                               *)
(*   mb   whether its masked realisation may fail ("may": the library has  *)
(*        no masked form of the function), has to ("must"), or not ("no")  *)
(*   fv   its fill value (ANY where that is not specified)                 *)
(*   src  TRUE for sources and indexed sources, stacks and mosaics, whose  *)
(*        masked realisation has the fill value fv                         *)
(*   mix  TRUE if it has members with different fill values, so that fewer *)
(*        of them can have another fill value                              *)
(*   sq   TRUE if m and p are the squares of the values                    *)
(*   off  TRUE if the values are those of m and p plus the offset which    *)
(*        has been chosen for the data of this history                     *)
(*   dep  for each element the set of the elements <<source, number>> of   *)
(*        sources which it depends on (when reads are being followed)      *)
(*   mem  for stacks, the positions on the heap of the members             *)
(*   from the positions on the heap of the stacks it has been built from   *)
(*   own  whether realising it gives a new array: "no", or "yes", or       *)
(*        "deep" where the same goes for what indexing it gives            *)
(***************************************************************************)
EXTENDS Cells, NDArray, TLC

Bad == [st |-> "bad"]
Void == [st |-> "void"]

Ok(e) == e.st = "ok"

NewArray(sh, dt, m, p, fv) ==
    [st |-> "ok", sh |-> sh, dt |-> dt, m |-> m, p |-> p, mb |-> "no",
     fv |-> fv, src |-> FALSE, mix |-> FALSE, sq |-> FALSE, off |-> FALSE, dep |-> <<>>,
     mem |-> <<>>, from |-> {}, own |-> "no"]

AnyCells(n) == [j \in 1..n |-> ANY]

(* What a single array shows of another. *)
View(e, im) ==
    [e EXCEPT !.sh = im.sh, !.m = TLCEval(Take(im.map, @)),
              !.p = TLCEval(Take(im.map, @)),
              !.dep = TLCEval(Take(im.map, @)), !.mem = <<>>]

NoFill(e) == [e EXCEPT !.fv = ANY, !.src = FALSE, !.mem = <<>>, !.mix = FALSE]

NumSize(dt) == ItemSize(dt)

MaskBad(b1, b2) == IF "must" \in {b1, b2} THEN "must"
                   ELSE IF "may" \in {b1, b2} THEN "may" ELSE "no"

(***************************************************************************)
(* Sources and constants                                                   *)
(***************************************************************************)
Source(s, h) ==
    LET fv == IF s.fv # <<>> THEN s.fv[1] ELSE DefaultFill(s.dt)
        plain == [j \in 1..Len(s.data) |-> IF ~IsMasked(s.data[j]) THEN s.data[j]
                                         ELSE IF s.off THEN ANY ELSE fv]
        dep == IF s.track THEN [j \in 1..Len(s.data) |-> {<<s.of, j - 1>>}] ELSE <<>>
    IN  [NewArray(s.sh, s.dt, s.data, plain, fv) EXCEPT
            !.src = TRUE, !.off = s.off, !.dep = dep]

Constant(s) ==
    LET c == IF s.dt \in Complex THEN s.v ELSE Cast(s.v, s.dt)
        cells == [j \in 1..Size(s.sh) |-> c]
    IN  [NewArray(s.sh, s.dt, cells, cells, DefaultFill(s.dt)) EXCEPT
            !.dep = IF s.track THEN [j \in 1..Size(s.sh) |-> {}] ELSE <<>>]

(***************************************************************************)
(* Views                                                                   *)
(***************************************************************************)
Index(e, keys) ==
    IF ShortMask(keys, e.sh) THEN Void
    ELSE IF Cardinality({j \in DOMAIN keys : keys[j].k = "e"}) > 1 THEN Void
    ELSE IF ~KeysOK(keys, e.sh) THEN Bad
    ELSE LET im == TLCEval(IndexMap(e.sh, keys))
         IN  IF e.mix \/ \E j \in DOMAIN keys : keys[j].k = "n" THEN NoFill(View(e, im))
             ELSE View(e, im)

Transpose(e, perm, default) ==
    LET n == Len(e.sh)
        pm == IF default THEN [d \in 1..n |-> n - d] ELSE perm
    IN  IF Len(pm) # n THEN Bad
        ELSE IF ~IsPerm(pm, n) THEN Void
        ELSE NoFill(View(e, TLCEval(PermuteMap(e.sh, pm))))

(* dims is a sequence of pairs <<axis, length>>. *)
Broadcast(e, dims, lead) ==
    LET axes == {dims[j][1] : j \in DOMAIN dims}
        len(d) == dims[CHOOSE j \in DOMAIN dims : dims[j][1] = d][2]
        full == lead \o [d \in 1..Len(e.sh) |->
                           IF d - 1 \in axes THEN len(d - 1) ELSE e.sh[d]]
        ok == /\ \A d \in axes : d \in 0..(Len(e.sh) - 1) /\ e.sh[d + 1] = 1 /\ len(d) >= 0
              /\ \A j \in DOMAIN lead : lead[j] >= 1
    IN  IF ~ok THEN Bad ELSE NoFill(View(e, TLCEval(BroadcastMap(e.sh, full))))

(* Insert new axes, as many as given before each dimension and at the end. *)
RECURSIVE NewShape(_, _)
NewShape(sh, new) ==
    [j \in 1..Head(new) |-> 1] \o
    IF sh = <<>> THEN <<>> ELSE <<Head(sh)>> \o NewShape(Tail(sh), Tail(new))

NewAxes(e, new) ==
    IF Len(new) # Len(e.sh) + 1 \/ \E j \in DOMAIN new : new[j] < 0 THEN Bad
    ELSE NoFill([e EXCEPT !.sh = NewShape(e.sh, new)])

BroadcastPair(e1, e2, which) ==
    IF ~Broadcastable(e1.sh, e2.sh) THEN Bad
    ELSE LET full == BroadcastShape(e1.sh, e2.sh)
             e == IF which = 1 THEN e1 ELSE e2
         IN  IF e.sh = full THEN e
             ELSE NoFill(View(e, TLCEval(BroadcastMap(e.sh, full))))

AsType(e, dt) ==
    LET cast(cells) == [j \in 1..Len(cells) |->
                           IF {e.dt, dt} \subseteq Complex THEN cells[j] ELSE Cast(cells[j], dt)]
    IN  IF ((e.sq \/ e.off) /\ dt \notin Floats) \/ ({e.dt, dt} \cap Exotic # {} /\ dt # e.dt) THEN Void
        ELSE [NoFill(e) EXCEPT !.dt = dt, !.m = TLCEval(cast(@)), !.p = TLCEval(cast(@))]

MaskEqual(e, v) ==
    IF e.sq \/ e.off THEN Void
    ELSE [NoFill(e) EXCEPT !.m = TLCEval([j \in 1..Len(e.m) |->
             IF IsMasked(e.m[j]) THEN MASKED
             ELSE IF ~IsNum(e.m[j]) THEN ANY
             ELSE IF e.m[j] = v /\ ~IsNan(v) THEN MASKED ELSE e.m[j]])]

(***************************************************************************)
(* Stacks and mosaics                                                      *)
(***************************************************************************)
CommonFill(es) == IF \E j \in DOMAIN es : IsAny(es[j].fv) THEN ANY
                  ELSE IF \A j \in DOMAIN es : es[j].fv = es[1].fv THEN es[1].fv
                  ELSE DefaultFill(es[1].dt)

Mixed(es) == \E j \in DOMAIN es : es[j].mix \/ IsAny(es[j].fv) \/ es[j].fv # es[1].fv

RECURSIVE MaskBads(_)
MaskBads(es) == IF es = <<>> THEN "no" ELSE MaskBad(Head(es).mb, MaskBads(Tail(es)))

SameKind(es) == \A j \in DOMAIN es : es[j].sq = es[1].sq /\ es[j].off = es[1].off

Froms(es) == UNION {es[j].from : j \in DOMAIN es}

(* The position in row-major order of member j of a flat sequence. *)
ReverseSeq(s) == [j \in 1..Len(s) |-> s[Len(s) + 1 - j]]
ColumnMajor(sh) ==      \* row-major position -> position in the sequence
    [q \in 1..Size(sh) |->
        LET ix == Unravel(q - 1, sh) IN Ravel(ReverseSeq(ix), ReverseSeq(sh))]

Stack(es, at, ssh, order, self) ==
    LET n == Len(es)
        ok == /\ n = Size(ssh) /\ n > 0
              /\ \A j \in 1..n : es[j].sh = es[1].sh /\ es[j].dt = es[1].dt
        pos == IF order = "F" THEN ColumnMajor(ssh) ELSE [j \in 1..n |-> j - 1]
        o == TLCEval(Take(pos, es))
    IN  IF ~ok THEN Bad
        ELSE IF ~SameKind(es) THEN Void
        ELSE [NewArray(ssh \o es[1].sh, es[1].dt,
                       FlattenSeq([j \in 1..n |-> o[j].m]),
                       FlattenSeq([j \in 1..n |-> o[j].p]), CommonFill(es)) EXCEPT
                !.mb = MaskBads(es), !.sq = es[1].sq, !.off = es[1].off,
                !.dep = FlattenSeq([j \in 1..n |-> o[j].dep]),
                !.src = TRUE, !.mix = Mixed(es), !.mem = TLCEval(Take(pos, at)),
                !.from = Froms(es) \cup {self}]

(* Row-major concatenation along a 0-based axis: the blocks of each array
   inside one step of the dimensions before the axis follow each other. *)
Concat(es, ax, field(_)) ==
    LET sh == es[1].sh
        outer == Size(SubSeq(sh, 1, ax))
        blk(j) == Size(SubSeq(es[j].sh, ax + 1, Len(sh)))
        part(j, q) == SubSeq(field(es[j]), q * blk(j) + 1, (q + 1) * blk(j))
    IN  FlattenSeq([q \in 1..outer |->
                      FlattenSeq([j \in 1..Len(es) |-> part(j, q - 1)])])

RECURSIVE SumN(_)
SumN(s) == IF s = <<>> THEN 0 ELSE Head(s) + SumN(Tail(s))

Mosaic(es, ax) ==
    LET n == Len(es)
        nd == Len(es[1].sh)
        ok == /\ n > 0 /\ ax \in 0..(nd - 1)
              /\ \A j \in 1..n : /\ Len(es[j].sh) = nd /\ es[j].dt = es[1].dt
                                 /\ \A d \in 1..nd : d = ax + 1 \/ es[j].sh[d] = es[1].sh[d]
        sh == [d \in 1..nd |-> IF d = ax + 1 THEN SumN([j \in 1..n |-> es[j].sh[d]])
                               ELSE es[1].sh[d]]
    IN  IF ~ok THEN Bad
        ELSE IF ~SameKind(es) THEN Void
        ELSE [NewArray(sh, es[1].dt, Concat(es, ax, LAMBDA e : e.m),
                       Concat(es, ax, LAMBDA e : e.p), CommonFill(es)) EXCEPT
                !.mb = MaskBads(es), !.sq = es[1].sq, !.off = es[1].off,
                !.dep = IF es[1].dep = <<>> THEN <<>> ELSE Concat(es, ax, LAMBDA e : e.dep),
                !.src = TRUE, !.mix = Mixed(es), !.from = Froms(es)]

(***************************************************************************)
(* Elementwise operations                                                  *)
(***************************************************************************)
(* The functions for which the library has no masked form. *)
NoMasked == {"rint", "sign", "exp2", "expm1", "square", "reciprocal", "deg2rad",
             "rad2deg", "invert", "fmax", "fmin", "trunc", "isreal", "iscomplex",
             "isinf", "isnan", "signbit", "copysign", "nextafter", "ldexp", "fmod"}

(* Functions which this specification does not compute come with a table of
   the values NumPy gives: <<argument(s)..., plain, masked>>, the dtype of the
   result (no dtype if NumPy refuses the operands) and whether numpy.ma has the
   function. *)
Look(tab, x, y) ==
    LET j == SelectInSeq(tab, LAMBDA r : r[1] = x /\ r[2] = y)
    IN  IF j = 0 THEN <<x, y, ANY, ANY>> ELSE tab[j]

HasTab(s) == s.tab # <<>>

TabUnary(e, tb) ==
    LET f(c, k) == IF IsMasked(c) THEN MASKED ELSE Look(tb.t, c, ZERO)[k]
    IN  [NoFill(e) EXCEPT !.dt = tb.dt,
            !.m = TLCEval([j \in 1..Len(e.m) |-> f(e.m[j], 4)]),
            !.p = TLCEval([j \in 1..Len(e.p) |-> f(e.p[j], 3)])]

Unary(f, e, s) ==
    IF HasTab(s)
    THEN IF s.tab[1].dt = "" THEN Bad
         ELSE IF e.sq \/ e.off THEN Void
         ELSE LET r == TabUnary(e, s.tab[1])
              IN  IF s.tab[1].ma THEN r ELSE [r EXCEPT !.mb = MaskBad(e.mb, "may")]
    ELSE IF e.dt = "b1" /\ f \in {"negative", "sign"} THEN Bad
    ELSE IF e.sq \/ e.off \/ e.dt = "f2" \/ e.dt \in Exotic THEN Void
    ELSE IF e.dt \in Complex /\ f \notin LinearUnary THEN Void
    ELSE IF e.dt \in {"b1", "i1", "u1"} /\ f \in FloatUnary \cup {"signbit", "square", "conj", "absolute"} THEN Void
    ELSE LET rdt == UnaryType(f, e.dt)
             g(c) == IF IsMasked(c) THEN MASKED ELSE Hold(U(f, c, e.dt), rdt)
         IN  [NoFill(e) EXCEPT !.dt = rdt,
                 !.m = TLCEval([j \in 1..Len(e.m) |-> g(e.m[j])]),
                 !.p = TLCEval([j \in 1..Len(e.p) |-> g(e.p[j])]),
                 !.mb = IF f \in NoMasked THEN MaskBad(e.mb, "may") ELSE e.mb]

(* An operand: an array of the heap, a Python number, or a NumPy array or
   scalar.  Returns an array (or Bad/Void); Python numbers are marked by a
   dtype beginning with "py". *)
Operand(heap, o) ==
    CASE o.k = "h"  -> heap[o.h]
      [] o.k = "py" -> NewArray(<<>>, "py", <<o.v>>, <<o.v>>, ANY)
      [] o.k = "np" -> LET fv == IF o.fv # <<>> THEN o.fv[1] ELSE DefaultFill(o.dt)
                       IN  NewArray(o.sh, o.dt, o.data,
                               [j \in 1..Len(o.data) |->
                                  IF IsMasked(o.data[j]) THEN fv ELSE o.data[j]], ANY)

PyKind(o) == IF o.k = "py" THEN o.t ELSE ""

(* The dtype a Python number takes beside an array of dtype dt ("" where this
   specification does not say). *)
PyType(kind, dt, v) ==
    IF kind = "int"
    THEN CASE dt = "b1" -> IF -128 <= v[1] /\ v[1] <= 127 THEN "i8" ELSE ""
           [] dt = "u1" -> IF 0 <= v[1] /\ v[1] <= 255 THEN dt ELSE ""
           [] dt = "u2" -> IF 0 <= v[1] /\ v[1] <= 65535 THEN dt ELSE ""
           [] dt \in {"u4", "u8"} -> IF 0 <= v[1] THEN dt ELSE ""
           [] dt \in Complex -> ""
           [] dt = "i1" -> IF -128 <= v[1] /\ v[1] <= 127 THEN dt ELSE ""
           [] dt = "i2" -> IF -32768 <= v[1] /\ v[1] <= 32767 THEN dt ELSE ""
           [] OTHER -> dt
    ELSE CASE dt \in {"f4", "f8"} -> dt
           [] dt \in {"i4", "i8", "u4", "u8"} -> "f8"
           [] OTHER -> ""

ShiftFree == {"sub", "subtract"}       \* a common offset drops out of these

Binary(f, x0, y0, kx, ky, s) ==
    LET dx == IF kx # "" THEN IF ky # "" THEN "" ELSE PyType(kx, y0.dt, x0.m[1]) ELSE x0.dt
        dy == IF ky # "" THEN IF kx # "" THEN "" ELSE PyType(ky, x0.dt, y0.m[1]) ELSE y0.dt
        full == BroadcastShape(x0.sh, y0.sh)
        n == Size(full)
        mx == TLCEval(BroadcastMap(x0.sh, full).map)
        my == TLCEval(BroadcastMap(y0.sh, full).map)
        arith == f \in Arith \cup Bit \cup Divide
        rdt == IF HasTab(s) THEN s.tab[1].dt ELSE BinaryType(f, dx, dy)
        negpow == /\ f = "power" /\ rdt \in Ints
                  /\ \E j \in DOMAIN y0.m : \/ (IsNum(y0.m[j]) /\ y0.m[j][1] < 0)
                                            \/ (IsNum(y0.p[j]) /\ y0.p[j][1] < 0)
        plain(x, y) == IF HasTab(s) THEN Look(s.tab[1].t, x, y)[3]
                       ELSE Hold(Bi(f, x, y, rdt), rdt)
        masked(x, y) == IF IsMasked(x) \/ IsMasked(y) THEN MASKED
                        ELSE IF HasTab(s) THEN Look(s.tab[1].t, x, y)[4]
                        ELSE IF IsNum(x) /\ IsNum(y) /\ MaskedDomain(f, x, y) THEN MASKED
                        \* numpy.ma takes its second operand, unless the first compares.
                        ELSE IF f \in {"maximum", "minimum"} /\ (IsNan(x) \/ IsNan(y))
                        THEN IF IsAny(x) \/ IsAny(y) THEN ANY ELSE y
                        ELSE LET v == Hold(Bi(f, x, y, rdt), rdt)
                             IN  IF f \in Domained /\ IsSpecial(v) THEN MASKED ELSE v
        offs == x0.off \/ y0.off
        mb0 == MaskBad(x0.mb, y0.mb)
        mb == IF IF HasTab(s) THEN ~s.tab[1].ma ELSE f \in NoMasked
              THEN MaskBad(mb0, "may") ELSE mb0
    IN  IF ~Broadcastable(x0.sh, y0.sh) THEN Bad
        ELSE IF HasTab(s) /\ rdt = "" THEN Bad
        ELSE IF ~HasTab(s) /\ (dx = "" \/ dy = "" \/ ({"f2"} \cup Exotic) \cap {dx, dy} # {}) THEN Void
        ELSE IF ~HasTab(s) /\ {dx, dy} \cap Complex # {}
                /\ ~({dx, dy} \subseteq Complex /\ f \in Linear) THEN Void
        ELSE IF ~HasTab(s) /\ arith /\ dx = "b1" /\ dy = "b1" THEN Void
        ELSE IF ~HasTab(s) /\ f \in Bit /\ rdt \notin Ints THEN Void
        ELSE IF ~HasTab(s) /\ f = "power" /\ rdt \in {"i1", "i2"} \cup Unsigned THEN Void
        ELSE IF x0.sq \/ y0.sq \/ negpow THEN Void
        ELSE IF offs /\ ~(f \in ShiftFree /\ x0.off /\ y0.off) THEN Void
        ELSE [NewArray(full, rdt,
                TLCEval([j \in 1..n |-> masked(x0.m[mx[j] + 1], y0.m[my[j] + 1])]),
                TLCEval([j \in 1..n |-> plain(x0.p[mx[j] + 1], y0.p[my[j] + 1])]),
                ANY) EXCEPT
                !.mb = mb,
                !.dep = LET d(e, map) == IF e.dep = <<>> THEN [j \in 1..n |-> {}]
                                         ELSE Take(map, e.dep)
                            d1 == TLCEval(d(x0, mx))
                            d2 == TLCEval(d(y0, my))
                        IN  IF x0.dep = <<>> /\ y0.dep = <<>> THEN <<>>
                            ELSE TLCEval([j \in 1..n |-> d1[j] \cup d2[j]]),
                !.from = x0.from \cup y0.from]

(***************************************************************************)
(* Aggregation along one axis                                              *)
(***************************************************************************)
Aggregate(f, e, axis, ddof, mdtol) ==
    LET nd == Len(e.sh)
        ax == IF axis < 0 THEN axis + nd ELSE axis
        lanes == TLCEval(Lanes(e.sh, ax))
        lane(cells, j) == Take(lanes[j], cells)
        n == Len(lanes)
        (* The result keeps the offset of its input, or is free of it. *)
        off == e.off /\ f \in {"min", "max", "mean"}
        rdt == AggType(f, e.dt)
    IN  IF ~(0 <= ax /\ ax < nd) THEN Bad
        ELSE IF e.sh[ax + 1] = 0 THEN Void
        ELSE IF e.dt \in {"b1", "f2"} \cup Exotic /\ f # "count" THEN Void
        ELSE IF e.off /\ f = "sum" THEN Void
        ELSE IF e.sq /\ f # "count" THEN Void
        ELSE [NoFill(e) EXCEPT
                !.sh = RemoveDim(e.sh, ax), !.dt = rdt,
                !.m = TLCEval([j \in 1..n |-> LET c == AggOf(AggMasked(f, lane(e.m, j), ddof, mdtol), f, e.dt)
                                              IN  IF f = "sum" THEN Hold(c, rdt) ELSE c]),
                !.p = TLCEval([j \in 1..n |-> LET c == AggOf(Agg(f, lane(e.p, j), ddof), f, e.dt)
                                              IN  IF f = "sum" THEN Hold(c, rdt) ELSE c]),
                !.sq = (f = "std" \/ (f = "var" /\ e.dt \in Complex)), !.off = off,
                !.dep = IF e.dep = <<>> THEN <<>>
                        ELSE [j \in 1..n |-> UNION {e.dep[q + 1] : q \in ToSet(lanes[j])}]]

(***************************************************************************)
(* The steps of a history which build arrays                               *)
(***************************************************************************)
OperandsOk(heap, ops) == \A j \in DOMAIN ops : ops[j].k = "h" => Ok(heap[ops[j].h])

Members(heap, as) == [j \in 1..Len(as) |-> heap[as[j]]]

(* What is computed, filled or put together is new; what shows something else
   may be part of it. *)
OwnOf(heap, s) ==
    IF s.op \in {"const", "bin", "un", "agg", "astype"} THEN "deep"
    ELSE IF s.op \in {"stack", "mosaic"} THEN "yes"
    ELSE IF s.op = "idx" /\ heap[s.a].own = "deep" THEN "deep"
    ELSE "no"

(* The array which building step s, at position self, adds to the heap. *)
Made(heap, s, self) ==
    CASE s.op = "src"   -> Source(s, heap)
      [] s.op = "const" -> Constant(s)
      [] s.op = "bin"   -> IF ~OperandsOk(heap, <<s.x, s.y>>) THEN Void
                           ELSE Binary(s.f, Operand(heap, s.x), Operand(heap, s.y),
                                       PyKind(s.x), PyKind(s.y), s)
      [] s.op = "stack" -> IF \E j \in DOMAIN s.as : ~Ok(heap[s.as[j]]) THEN Void
                           ELSE Stack(Members(heap, s.as), s.as, s.ssh, s.order, self)
      [] s.op = "mosaic" -> IF \E j \in DOMAIN s.as : ~Ok(heap[s.as[j]]) THEN Void
                            ELSE Mosaic(Members(heap, s.as), s.ax)
      [] s.op = "bcpair" -> IF ~Ok(heap[s.a]) \/ ~Ok(heap[s.b]) THEN Void
                            ELSE BroadcastPair(heap[s.a], heap[s.b], s.which)
      [] s.op = "fail"  -> Bad       \* an operation of no meaning
      [] OTHER ->
          LET e == heap[s.a] IN
          IF ~Ok(e) THEN Void
          ELSE CASE s.op = "idx"  -> Index(e, s.keys)
                 [] s.op = "tr"   -> Transpose(e, s.perm, s.default)
                 [] s.op = "bc"   -> Broadcast(e, s.dims, s.lead)
                 [] s.op = "newaxes" -> NewAxes(e, s.new)
                 [] s.op = "astype" -> AsType(e, s.dt)
                 [] s.op = "meq"  -> MaskEqual(e, s.v)
                 [] s.op = "un"   -> Unary(s.f, e, s)
                 [] s.op = "agg"  -> Aggregate(s.f, e, s.ax, s.ddof, s.mdtol)
                 [] s.op = "copy" -> [e EXCEPT !.from = {}, !.mem = <<>>]

Built(heap, s, self) ==
    LET e == TLCEval(Made(heap, s, self))
    IN  IF Ok(e) THEN [e EXCEPT !.own = OwnOf(heap, s)] ELSE e

Builders == {"src", "const", "bin", "stack", "mosaic", "bcpair", "fail", "idx",
             "tr", "bc", "newaxes", "astype", "meq", "un", "agg", "copy"}

(* Assigning a member to the position ix (a multi-index) of stack a. *)
SetItem(heap, s) ==
    LET st == heap[s.a]
        v == heap[s.b]
        ssh == SubSeq(st.sh, 1, Len(st.sh) - Len(v.sh))
        pos == Ravel([d \in 1..Len(s.ix) |-> Absolute(s.ix[d], ssh[d])], ssh)
        n == Size(v.sh)
        put(cells, new) == [j \in 1..Len(cells) |->
                              IF n > 0 /\ pos = (j - 1) \div n THEN new[((j - 1) % n) + 1]
                              ELSE cells[j]]
    IN  [st EXCEPT !.m = TLCEval(put(@, v.m)), !.p = TLCEval(put(@, v.p)),
                   !.dep = TLCEval(put(@, v.dep)), !.mem = [@ EXCEPT ![pos + 1] = s.b],
                   !.mb = MaskBad(@, v.mb), !.from = @ \cup v.from, !.src = FALSE, !.fv = ANY]
SetItemOK(heap, s) ==
    LET st == heap[s.a]
        v == heap[s.b]
        k == Len(st.sh) - Len(v.sh)
    IN  /\ k = Len(s.ix)
        /\ st.dt = v.dt
        /\ SubSeq(st.sh, k + 1, Len(st.sh)) = v.sh
        /\ \A d \in DOMAIN s.ix : InRange(s.ix[d], st.sh[d])

(* Arrays which have been built on an assigned stack are not specified. *)
AfterSet(heap, s) ==
    IF ~Ok(heap[s.a]) \/ ~Ok(heap[s.b]) THEN heap
    ELSE [j \in DOMAIN heap |->
            IF j = s.a THEN IF SetItemOK(heap, s)
                               /\ heap[s.a].sq = heap[s.b].sq /\ heap[s.a].off = heap[s.b].off
                            THEN SetItem(heap, s)
                            ELSE IF SetItemOK(heap, s) THEN Void ELSE heap[j]
            ELSE IF Ok(heap[j]) /\ s.a \in heap[j].from THEN Void
            ELSE heap[j]]

NextHeap(heap, s) ==
    IF s.op \in Builders THEN Append(heap, Built(heap, s, Len(heap) + 1))
    ELSE IF s.op = "setitem" THEN Append(AfterSet(heap, s), Void)
    ELSE Append(heap, Void)

(***************************************************************************)
(* Observations.  Each verdict is the set of the clauses which an observed *)
(* answer breaks.                                                          *)
(***************************************************************************)
Clause(ok, name) == IF ok THEN {} ELSE {name}

(* An observed float only determines a fraction up to a denominator lim, and
   is then recorded as that fraction. *)
(* Large numbers which were computed with f4 are known to 1/100000 only. *)
Near(exp, obs, lim) ==
    /\ lim < 1000 /\ IsFin(exp) /\ IsFin(obs)
    /\ LET m == exp[1] \div exp[2]
           n == obs[1] \div obs[2]
       IN  AbsI(m) > 300 /\ AbsI(n) > 300 /\ (m > 0 <=> n > 0)
           /\ AbsI(AbsI(m) - AbsI(n)) <= 1 + AbsI(m) \div 100000

Agree(exp, obs, lim) ==
    \/ IsAny(exp)
    \/ exp = obs
    \/ IsFin(exp) /\ exp[2] > lim /\ ~IsMasked(obs)
    \/ Near(exp, obs, lim)

(* opt[3]: the values have been through a less precise float type.
   opt[4]: the values are inexact, and are recorded as opaque ones. *)
Limit_(s, dt, opt) == IF opt[4] THEN 0
                      ELSE IF (dt \in Floats /\ dt # "f8") \/ opt[3] > 0 THEN s.lim[2]
                      ELSE s.lim[1]

CellsAgree(exp, obs, lim) ==
    Len(exp) = Len(obs) /\ \A j \in DOMAIN exp : Agree(exp[j], obs[j], lim)
MasksAgree(exp, obs) ==
    Len(exp) = Len(obs) /\ \A j \in DOMAIN exp : IsAny(exp[j]) \/ (IsMasked(exp[j]) <=> IsMasked(obs[j]))

(* One array r which realising e has given. *)
ResultVerdict(e, r, masked, s, opt) ==
    LET exp == IF masked THEN e.m ELSE e.p
        lim == Limit_(s, e.dt, opt)
        shape == r.sh = e.sh
        hidden == {j \in DOMAIN e.m : IsMasked(e.m[j])}
    IN  Clause(shape, "result shape")
        \cup Clause(r.dt = e.dt, "result dtype")
        \cup Clause(r.kind = (IF masked THEN "ma" ELSE "nd"), "result type")
        \cup (IF ~shape THEN {}
              ELSE IF masked
              THEN Clause(MasksAgree(exp, r.c), "mask")
                   \cup Clause(~MasksAgree(exp, r.c) \/ CellsAgree(exp, r.c, lim), "value")
              ELSE Clause(\A j \in hidden : Agree(exp[j], r.c[j], lim), "hidden value")
                   \cup Clause(\A j \in DOMAIN exp \ hidden : Agree(exp[j], r.c[j], lim), "value"))

(* A declared default fill value need not fit a small dtype. *)
SameFill(exp, obs, dt) == \/ IsAny(exp) \/ obs = exp
                          \/ dt = "f2" /\ obs = BIGFILL /\ exp = PINF
                          \/ dt \in {"i1", "u1", "i2", "u2"} /\ IsNum(obs) /\ exp = I(WrapI(obs[1], dt))

FillVerdict(e, r) == Clause(~e.src \/ SameFill(e.fv, r.fv, e.dt), "result fill value")

MetaVerdict(e, o) ==
    Clause(o.sh = e.sh, "shape") \cup Clause(o.ndim = Len(e.sh), "ndim")
    \cup Clause(o.dt = e.dt, "dtype")
    \cup Clause(o.nbytes = Size(e.sh) * ItemSize(e.dt), "nbytes")
    \cup Clause(SameFill(e.fv, o.fv, e.dt), "fill value")

Deps(es) == UNION {UNION {es[j].dep[q] : q \in DOMAIN es[j].dep} : j \in DOMAIN es}

(* Reads are records [s |-> source, n |-> elements asked for, ix |-> numbers]. *)
ReadSet(reads) == UNION {{<<reads[j].s, reads[j].ix[q]>> : q \in DOMAIN reads[j].ix} : j \in DOMAIN reads}
ReadCount(reads) == SumN([j \in 1..Len(reads) |-> Len(reads[j].ix)])

(*
   What several index tuples select from a NumPy-style source may be read in
   full along their dimensions: each member of ls has the number s and the
   shape sh of a source, and such dimensions.
*)
Loosened(deps, ls) ==
    deps \cup UNION {
        LET l == ls[j]
            key(q) == LET u == Unravel(q, l.sh)
                      IN  [d \in 1..Len(l.sh) |-> IF d \in ToSet(l.dims) THEN 0 ELSE u[d]]
            keys == TLCEval({key(x[2]) : x \in {y \in deps : y[1] = l.s}})
        IN  {<<l.s, q>> : q \in {q \in 0..(Size(l.sh) - 1) : key(q) \in keys}}
        : j \in DOMAIN ls}

ReadVerdict(es, s, reads) ==
    LET set == TLCEval(ReadSet(reads))
        deps == TLCEval(Loosened(Deps(es), s.loose))
        bulk == IF s.limit < 1 THEN 1 ELSE s.limit
    IN  Clause(set \subseteq deps, "reads too much")
        \cup Clause(~s.sized \/ \A j \in DOMAIN reads : reads[j].n <= bulk, "read too large")
        \cup Clause(~s.once \/ (ReadCount(reads) = Cardinality(set) /\ Deps(es) \subseteq set),
                    "not read once")

(* Something which was not to be touched has been changed.  (s.write: after
   looking at what a realisation has given, the user writes to it.  As it is
   new, nothing else changes.) *)
Untouched(o) == Clause(o.chg = <<>>, "changed")
NoReads(o) == Clause(o.rd = 0, "reads early")

BuildVerdict(heap, s) ==
    LET e == Built(heap, s, Len(heap) + 1)
        o == s.out
    IN  IF s.op = "src" THEN Clause(o.ok, "raised")
        ELSE (IF Ok(e) THEN Clause(o.ok, "raised") ELSE {})
             \cup NoReads(o) \cup Untouched(o)

SetVerdict(heap, s) ==
    (IF ~Ok(heap[s.a]) \/ ~Ok(heap[s.b]) THEN {}
     ELSE IF SetItemOK(heap, s) THEN Clause(s.out.ok, "raised")
     ELSE Clause(~s.out.ok, "accepted"))
    \cup NoReads(s.out) \cup Untouched(s.out)

(* Sources which are read far ahead of what is computed from their data would
   have many of their pieces in memory at the same time. *)
HoldBound == 16
FlowVerdict(s, o) == Clause(~s.flow \/ o.live <= HoldBound, "reads ahead")

(* How an observation has ended.  An evaluation in which something has failed
   must raise; one which has been made under a schedule of the harness must
   come to an end, and all its threads with it. *)
EndVerdict(o) == Clause(o.end = "", "hang") \cup Clause(o.left = 0, "threads left")
                 \cup Clause(~o.fired \/ ~o.ok, "failure hidden")

GetVerdict(heap, s) ==
    LET es == Members(heap, s.hs)
        o == s.out
        must == s.masked /\ \E j \in DOMAIN es : es[j].mb = "must"
        may == s.masked /\ \E j \in DOMAIN es : es[j].mb = "may"
    IN  EndVerdict(o) \cup
        Clause(~s.write \/ \A j \in DOMAIN es : Ok(es[j]) => es[j].own # "no", "not to be written to") \cup
        IF o.fired \/ o.end # "" THEN {}
        ELSE IF \E j \in DOMAIN es : es[j].st = "bad"
        THEN (IF o.ok THEN {"accepted"} ELSE {})
        ELSE IF \E j \in DOMAIN es : es[j].st = "void" THEN {}
        ELSE IF must THEN Clause(~o.ok, "accepted")
        ELSE IF ~o.ok THEN Clause(may, "not realised")
        ELSE IF Len(o.res) # Len(es) THEN {"results"}
        ELSE UNION {ResultVerdict(es[j], o.res[j], s.masked, s, s.enc[j]) : j \in DOMAIN es}
             \cup (IF s.how = "single" /\ s.masked THEN FillVerdict(es[1], o.res[1]) ELSE {})
             \cup (IF s.track /\ \A j \in DOMAIN es : Size(es[j].sh) > 0 THEN ReadVerdict(es, s, o.reads) ELSE {})
             \cup FlowVerdict(s, o)

(* Observations which several threads have made at the same time. *)
ConcVerdict(heap, s) ==
    UNION {IF s.gets[j].out.skip THEN {} ELSE GetVerdict(heap, s.gets[j]) : j \in DOMAIN s.gets}
    \cup Clause(s.out.left = 0, "threads left")

(* A step which saves array a: the writes are [ix |-> numbers, c |-> cells]. *)
SaveVerdict(heap, s) ==
    LET e == heap[s.a]
        o == s.out
        w == o.w
        all == [j \in 1..Len(w) |-> Len(w[j].ix)]
        set == UNION {ToSet(w[j].ix) : j \in DOMAIN w}
        exp == IF s.masked THEN e.m ELSE e.p
        lim == Limit_(s, e.dt, s.enc)
        bulk == IF s.limit < 1 THEN 1 ELSE s.limit
        inside == set \subseteq 0..(Size(e.sh) - 1)
    IN  EndVerdict(o) \cup
        IF ~Ok(e) \/ o.fired \/ o.end # "" THEN {}
        ELSE IF ~o.ok THEN Clause(s.masked /\ e.mb # "no", "not realised")
        ELSE Clause(inside, "writes outside")
             \cup Clause(SumN(all) = Cardinality(set), "writes twice")
             \cup Clause(Cardinality(set) = Size(e.sh), "writes missing")
             \cup Clause(\A j \in DOMAIN w : Len(w[j].ix) <= bulk, "write too large")
             \cup Clause(~inside \/ \A j \in DOMAIN w :
                            /\ w[j].kind = (IF s.masked THEN "ma" ELSE "nd")
                            /\ Len(w[j].ix) = Len(w[j].c)
                            /\ \A q \in DOMAIN w[j].ix :
                                 Agree(exp[w[j].ix[q] + 1], w[j].c[q], lim), "written value")
             \cup (IF s.track /\ Size(e.sh) > 0 THEN ReadVerdict(<<e>>, s, o.reads) ELSE {})

Verdict(heap, s) ==
    IF s.out.skip THEN {}
    ELSE CASE s.op \in Builders -> BuildVerdict(heap, s)
           [] s.op = "setitem" -> SetVerdict(heap, s)
           [] s.op = "meta" -> NoReads(s.out) \cup Untouched(s.out)
                 \cup (IF ~Ok(heap[s.a]) THEN {}
                       ELSE IF ~s.out.ok THEN {"no metadata"}
                       ELSE MetaVerdict(heap[s.a], s.out))
           [] s.op = "print" -> NoReads(s.out) \cup Untouched(s.out) \cup Clause(s.out.ok, "not printed")
           [] s.op = "get" -> GetVerdict(heap, s) \cup Untouched(s.out)
           [] s.op = "conc" -> ConcVerdict(heap, s) \cup Untouched(s.out)
           [] s.op = "save" -> SaveVerdict(heap, s) \cup Untouched(s.out)
           [] OTHER -> {"unknown step"}

(***************************************************************************)
(* Properties of this specification itself, checked on the histories it is *)
(* run with.                                                               *)
(***************************************************************************)
WellFormed(e) == Ok(e) => /\ Len(e.m) = Size(e.sh)
                          /\ Len(e.p) = Size(e.sh)
                          /\ e.dep = <<>> \/ Len(e.dep) = Size(e.sh)
                          /\ \A j \in DOMAIN e.p : ~IsMasked(e.p[j])
TypeOK(heap) == \A j \in DOMAIN heap : WellFormed(heap[j])
=============================================================================
