----------------------------- MODULE BiggusGen -----------------------------
(***************************************************************************)
(* Behaviours of Biggus of bounded size, enumerated by TLC.                *)
(*                                                                         *)
(* The heap is built from every start of a family by every sequence of     *)
(* moves of the family, up to a number of moves.  Every program of steps   *)
(* which is reached is emitted, for the library to execute; what the       *)
(* library answers is judged by BiggusTrace.  Laws which the library       *)
(* relies on, when it passes indices on to what an array is made of, are   *)
(* checked on every heap which is reached.                                 *)
(*                                                                         *)
(* The environment chooses the family, and which of the first moves are    *)
(* made: those whose number is Part modulo Parts.                          *)
(***************************************************************************)
EXTENDS Biggus, Json, IOUtils

Fam == IOEnv.FAMILY
Part == atoi(IOEnv.PART)
Parts == atoi(IOEnv.PARTS)

VARIABLES prog,     \* the steps made
          heap,     \* what they have built
          moves,    \* how many of them are moves
          root      \* the number of the start (or of the way so far)

vars == <<prog, heap, moves, root>>

(***************************************************************************)
(* Keys.  All are sequences, so that nothing of different kinds has to be  *)
(* compared.                                                               *)
(***************************************************************************)
KI(n) == [k |-> "i", i |-> n]
KS(a, b, c) == [k |-> "s", a |-> a, b |-> b, c |-> c]
KT(t) == [k |-> "t", t |-> t]
KM(t) == [k |-> "m", t |-> t]
KE == [k |-> "e"]
KN == [k |-> "n"]

Pairs(s, t, f(_, _)) ==
    LET n == Len(t)
    IN  TLCEval([q \in 1..(Len(s) * n) |-> f(s[((q - 1) \div n) + 1], t[((q - 1) % n) + 1])])

(* All sequences with one member of each of the sequences given. *)
RECURSIVE Choose(_)
Choose(ss) == IF ss = <<>> THEN <<<<>>>>
              ELSE LET rest == TLCEval(Choose(Tail(ss)))
                   IN  TLCEval(Pairs(Head(ss), rest, LAMBDA h, t : <<h>> \o t))

Upto(lo, hi) == [j \in 1..(hi - lo + 1) |-> lo + j - 1]

Tuples(from, n) == Choose([j \in 1..n |-> from])

Flags(n) == Tuples(<<FALSE, TRUE>>, n)

(* Every integer and mask, every slice with ends up to one outside, every
   tuple of up to two members (three of few), for a dimension of length n. *)
Wide(n) ==
    LET ends == <<<<>>>> \o [j \in 1..(2 * n + 3) |-> <<j - n - 2>>]
        steps == <<<<>>, <<-1>>, <<2>>, <<-2>>>>
        all == Upto(-n, n - 1)
    IN  [j \in 1..Len(all) |-> KI(all[j])]
        \o FlattenSeq(Pairs(ends, ends, LAMBDA a, b : [j \in 1..4 |-> KS(a, b, steps[j])]))
        \o FlattenSeq([m \in 1..3 |-> LET t == Tuples(all, m - 1)
                                      IN  [j \in 1..Len(t) |-> KT(t[j])]])
        \o [j \in 1..Size([d \in 1..n |-> 2]) |-> KM(Flags(n)[j])]

(* One key for each selection of a kind which is worth a distinction. *)
Narrow(n) ==
    IF n = 0 THEN <<FullSlice, KS(<<>>, <<>>, <<-1>>), KT(<<>>), KM(<<>>)>>
    ELSE [j \in 1..n |-> KI(j - 1)] \o <<KI(-1)>>
         \o <<FullSlice, KS(<<>>, <<>>, <<-1>>), KS(<<1>>, <<>>, <<>>),
              KS(<<>>, <<-1>>, <<>>), KS(<<>>, <<>>, <<2>>), KS(<<0>>, <<0>>, <<>>),
              KT(<<>>), KT(<<0, 0>>), KT(<<n - 1, 0>>), KT(<<-1>>),
              KM([j \in 1..n |-> j % 2 = 1]), KM([j \in 1..n |-> FALSE])>>

Mini(n) ==
    IF n = 0 THEN <<FullSlice, KT(<<>>)>>
    ELSE <<FullSlice, KI(0), KS(<<>>, <<>>, <<-1>>), KT(<<n - 1, 0>>),
           KM([j \in 1..n |-> j # 1])>>

Small(n) ==
    IF n = 0 THEN <<FullSlice>> ELSE <<KI(-1), KS(<<>>, <<>>, <<-1>>), KT(<<n - 1, 0>>)>>

KeysOf(set(_), sh) == Choose([d \in 1..Len(sh) |-> set(sh[d])])

(* Sequences of up to m keys, with new axes and an Ellipsis anywhere. *)
Loose(sh, m) ==
    LET some == <<KI(0), KS(<<>>, <<>>, <<-1>>), KT(<<0, 0>>), KE, KN>>
        all == TLCEval(FlattenSeq([j \in 1..(m + 1) |-> Tuples(some, j - 1)]))
    IN  SelectSeq(all, LAMBDA keys :
            /\ Cardinality({j \in DOMAIN keys : keys[j].k = "e"}) <= 1
            /\ ~TooMany(keys, Len(sh)) /\ KeysOK(keys, sh))

(***************************************************************************)
(* Steps                                                                   *)
(***************************************************************************)
N(n) == <<n, 1>>
Numbers(n, from) == [j \in 1..n |-> N(from + j)]

SrcOf(sh, dt, data) == [op |-> "src", sh |-> sh, dt |-> dt, data |-> data, fv |-> <<>>,
                        off |-> FALSE, track |-> FALSE, of |-> 1]
Src(sh) == SrcOf(sh, "i4", Numbers(Size(sh), 0))
SrcFrom(sh, from) == SrcOf(sh, "i4", Numbers(Size(sh), from))
MaskedSrc(sh) == SrcOf(sh, "f8", [j \in 1..Size(sh) |-> IF j % 3 = 2 THEN MASKED ELSE N(j)])

Idx(a, keys) == [op |-> "idx", a |-> a, keys |-> keys]
IdxAll(a, all) == LET ks == TLCEval(all) IN TLCEval([j \in 1..Len(ks) |-> Idx(a, ks[j])])
Tr(a, perm) == [op |-> "tr", a |-> a, perm |-> perm, default |-> FALSE]
Bc(a, dims, lead) == [op |-> "bc", a |-> a, dims |-> dims, lead |-> lead]
Ax(a, new) == [op |-> "newaxes", a |-> a, new |-> new]
As(a, dt) == [op |-> "astype", a |-> a, dt |-> dt]
Un(f, a) == [op |-> "un", f |-> f, a |-> a, tab |-> <<>>]
H(a) == [k |-> "h", h |-> a]
BinOf(f, x, y) == [op |-> "bin", f |-> f, x |-> x, y |-> y, tab |-> <<>>]
Bin(f, a, b) == BinOf(f, H(a), H(b))
Ag(f, a, ax, ddof, tol) == [op |-> "agg", f |-> f, a |-> a, ax |-> ax, ddof |-> ddof,
                            mdtol |-> tol]
St(as, ssh, order) == [op |-> "stack", as |-> as, ssh |-> ssh, order |-> order]
Mo(as, ax) == [op |-> "mosaic", as |-> as, ax |-> ax]
Const(sh) == [op |-> "const", sh |-> sh, dt |-> "i4", v |-> N(7), track |-> FALSE]


Perms(n) == CASE n = 0 -> <<<<>>>>
              [] n = 1 -> <<<<0>>>>
              [] n = 2 -> <<<<0, 1>>, <<1, 0>>>>
              [] n = 3 -> <<<<0, 1, 2>>, <<0, 2, 1>>, <<1, 0, 2>>,
                            <<1, 2, 0>>, <<2, 0, 1>>, <<2, 1, 0>>>>
              [] OTHER -> <<[j \in 1..n |-> n - j], [j \in 1..n |-> j % n]>>

(* The ways to look at an array once more. *)
Views(a, sh) ==
    LET nd == Len(sh)
        ones == SelectSeq(Upto(0, nd - 1), LAMBDA d : sh[d + 1] = 1)
        perms == SelectSeq(Perms(nd), LAMBDA p : p # [j \in 1..nd |-> j - 1])
        one(d, key) == [j \in 1..nd |-> IF j = d THEN key ELSE FullSlice]
    IN  [j \in 1..Len(perms) |-> Tr(a, perms[j])]
        \o [j \in 1..(nd + 1) |-> Ax(a, [q \in 1..(nd + 1) |-> IF q = j THEN 1 ELSE 0])]
        \o [j \in 1..Len(ones) |-> Bc(a, <<<<ones[j], 2>>>>, <<>>)]
        \o <<Bc(a, <<>>, <<2>>)>>
        \o FlattenSeq([d \in 1..nd |->
               [j \in 1..(Len(Mini(sh[d])) - 1) |-> Idx(a, one(d, Mini(sh[d])[j + 1]))]])

(* All shapes of up to nd dimensions whose lengths are among ns. *)
Shapes(ns, nd) == FlattenSeq([j \in 1..(nd + 1) |-> Tuples(ns, j - 1)])

(* The same steps on a heap which has n arrays already. *)
Shifted(steps, n) ==
    [j \in 1..Len(steps) |->
        LET s == steps[j]
        IN  CASE s.op \in {"stack", "mosaic"} -> [s EXCEPT !.as = [q \in DOMAIN @ |-> @[q] + n]]
              [] s.op = "bin" -> [s EXCEPT !.x = H(@.h + n), !.y = H(@.h + n)]
              [] s.op \in {"src", "const"} -> s
              [] OTHER -> [s EXCEPT !.a = @ + n]]

(***************************************************************************)
(* The families.  A start is a program; the moves are steps.               *)
(***************************************************************************)
One(steps) == [j \in 1..Len(steps) |-> <<steps[j]>>]

(* Arrays of all kinds of shape <<2, 3>> (or <<2, 1>>). *)
Kinds23 ==
    <<<<Src(<<2, 3>>)>>, <<MaskedSrc(<<2, 3>>)>>, <<Const(<<2, 3>>)>>,
      <<Src(<<3>>), SrcFrom(<<3>>, 3), St(<<1, 2>>, <<2>>, "C")>>,
      <<Src(<<>>), SrcFrom(<<>>, 1), SrcFrom(<<>>, 2), SrcFrom(<<>>, 3), SrcFrom(<<>>, 4),
        SrcFrom(<<>>, 5), St(<<1, 2, 3, 4, 5, 6>>, <<2, 3>>, "F")>>,
      <<Src(<<2, 1>>), SrcFrom(<<2, 2>>, 2), Mo(<<1, 2>>, 1)>>,
      <<Src(<<1, 3>>), SrcFrom(<<1, 3>>, 3), Mo(<<1, 2>>, 0)>>,
      <<Src(<<3, 2>>), Tr(1, <<1, 0>>)>>,
      <<Src(<<2, 1>>), Bc(1, <<<<1, 3>>>>, <<>>)>>,
      <<Src(<<3>>), Bc(1, <<>>, <<2>>)>>,
      <<Src(<<2, 3>>), As(1, "f8")>>,
      <<Src(<<2, 3>>), Un("negative", 1)>>,
      <<Src(<<2, 1>>), SrcFrom(<<3>>, 10), Bin("add", 1, 2)>>,
      <<Src(<<2, 2, 3>>), Ag("sum", 1, 0, 0, <<1, 1>>)>>,
      <<Src(<<2, 3, 2>>), Ag("max", 1, 2, 0, <<1, 1>>)>>,
      <<MaskedSrc(<<2, 2, 3>>), Ag("mean", 1, 1, 0, <<1, 2>>)>>>>

(* All shapes of up to three dimensions of lengths 0 to 3, and some longer. *)
Shapes3 == Shapes(<<0, 1, 2, 3>>, 3) \o <<<<5>>, <<4, 2>>, <<2, 5>>, <<2, 1, 2, 2>>>>

Types == <<"b1", "i1", "u1", "i2", "u2", "i4", "u4", "i8", "u8", "f4", "f8">>
Values(dt, one) ==
    CASE dt = "b1" -> IF one THEN <<N(0), N(1), N(1)>> ELSE <<N(1), N(0), N(1)>>
      [] dt \in Unsigned -> IF one THEN <<N(0), N(5), N(200)>> ELSE <<N(2), N(1), N(100)>>
      [] dt \in Floats -> IF one THEN <<<<-1, 2>>, N(3), N(100)>> ELSE <<N(2), <<3, 4>>, N(-7)>>
      [] OTHER -> IF one THEN <<N(-3), N(2), N(100)>> ELSE <<N(2), N(-1), N(120)>>
TypeSrc(dt, one) == SrcOf(<<3>>, dt, Values(dt, one))

Exact1 == <<"negative", "absolute", "rint", "sign", "conj", "square", "logical_not", "isnan",
            "isinf", "isreal", "signbit", "floor", "ceil", "trunc">>
Exact2 == <<"add", "sub", "subtract", "multiply", "floor_divide", "true_divide", "divide",
            "greater", "greater_equal", "less", "less_equal", "not_equal", "equal",
            "logical_and", "logical_or", "logical_xor", "maximum", "minimum", "fmax", "fmin",
            "bitwise_and", "bitwise_or", "bitwise_xor">>
Py(t, v) == [k |-> "py", t |-> t, v |-> v]

Starts ==
    CASE Fam = "index1" -> One([j \in 1..4 |-> Src(<<j - 1>>)] \o <<MaskedSrc(<<3>>)>>)
      [] Fam = "index2" -> One(<<Src(<<2, 3>>), Src(<<3, 2>>), MaskedSrc(<<2, 2>>),
                                 Src(<<1, 3>>), Src(<<0, 2>>), Src(<<2, 0>>)>>)
      [] Fam = "index3" -> One(<<Src(<<2, 3, 2>>), MaskedSrc(<<3, 2, 2>>)>>)
      [] Fam = "ellipsis" -> One(<<Src(<<>>), Src(<<3>>), Src(<<2, 3>>), Src(<<2, 1, 2>>)>>)
      [] Fam = "views" -> One(<<Src(<<2, 3>>), MaskedSrc(<<1, 2>>), Src(<<3>>), Src(<<1, 1>>),
                                Src(<<>>), Const(<<2, 1>>), Src(<<2, 1, 2>>)>>)
      [] Fam = "kinds" -> Kinds23
      [] Fam = "stack" ->
          FlattenSeq([i \in 1..4 |-> LET ish == <<<<>>, <<2>>, <<0>>, <<1, 2>>>>[i] IN
              FlattenSeq([j \in 1..6 |->
                  LET ssh == <<<<1>>, <<2>>, <<3>>, <<2, 2>>, <<1, 2>>, <<2, 1, 2>>>>[j]
                      n == Size(ssh)
                      srcs == [q \in 1..n |-> SrcFrom(ish, (q - 1) * Size(ish))]
                  IN  [o \in 1..2 |-> srcs \o <<St(Upto(1, n), ssh, <<"C", "F">>[o])>>]])])
      [] Fam = "mosaic" ->
          LET lens == FlattenSeq([n \in 1..3 |-> Tuples(<<0, 1, 2>>, n)])
              sum(s) == SumN(s)
              start(s, ax) ==
                  LET sh(q) == IF ax = 0 THEN <<s[q], 2>> ELSE <<2, s[q]>>
                      srcs == [q \in 1..Len(s) |-> SrcFrom(sh(q), 2 * sum(SubSeq(s, 1, q - 1)))]
                  IN  srcs \o <<Mo(Upto(1, Len(s)), ax)>>
          IN  FlattenSeq([j \in 1..Len(lens) |-> <<start(lens[j], 0), start(lens[j], 1)>>])
      [] Fam = "pairs" ->
          LET shapes == Shapes(<<0, 1, 2, 3>>, 2) \o <<<<2, 1, 3>>, <<1, 3, 1>>, <<1, 0, 2>>>>
          IN  Pairs(shapes, shapes, LAMBDA s, t : <<Src(s), SrcFrom(t, 20)>>)
      [] Fam \in {"aggs", "chunk1"} ->
          LET rows == FlattenSeq([n \in 1..4 |-> Tuples(<<MASKED, N(0), N(1), N(4)>>, n)])
          IN  [j \in 1..Len(rows) |-> <<SrcOf(<<Len(rows[j])>>, "f8", rows[j])>>]
      [] Fam \in {"aggs2", "chunk2"} ->
          LET cells == Tuples(<<MASKED, N(1), N(3)>>, 6)
          IN  [j \in 1..Len(cells) |-> <<SrcOf(<<2, 3>>, "f8", cells[j])>>]
      [] Fam \in {"plain", "chunk0"} ->
          LET rows == FlattenSeq([n \in 1..4 |-> Tuples(<<N(0), N(1), N(4), N(-2)>>, n)])
              cells == Tuples(<<N(1), N(3)>>, 6)
          IN  [j \in 1..Len(rows) |-> <<SrcOf(<<Len(rows[j])>>, "f8", rows[j])>>]
              \o [j \in 1..Len(cells) |-> <<SrcOf(<<2, 3>>, "i4", cells[j])>>]
      [] Fam = "types" -> Pairs(Types, Types, LAMBDA t, u : <<TypeSrc(t, TRUE), TypeSrc(u, FALSE)>>)
      [] Fam = "numbers" -> [j \in 1..Len(Types) |-> <<TypeSrc(Types[j], TRUE)>>]
      [] Fam = "bad" ->
          [j \in 1..Len(Kinds23) |-> <<SrcFrom(<<2, 4>>, 0), SrcOf(<<2, 3>>, "f4", Numbers(6, 0))>>
                                     \o Shifted(Kinds23[j], 2)]
      [] Fam = "save" -> One([j \in 1..Len(Shapes3) |-> Src(Shapes3[j])]) \o Kinds23
      [] Fam = "joint" -> <<<<Src(<<2, 2>>), MaskedSrc(<<2, 2>>)>>, <<MaskedSrc(<<2, 3>>)>>>>
      [] Fam = "assign" ->
          LET srcs(n, ish) == [q \in 1..n |-> SrcFrom(ish, (q - 1) * Size(ish))]
              others(ish) == <<SrcFrom(ish, 40), SrcFrom(ish, 50),
                               SrcOf(ish, "f8", Numbers(Size(ish), 60)), Src(Append(ish, 2))>>
              start(ssh, ish) == others(ish) \o srcs(Size(ssh), ish)
                                 \o <<St(Upto(5, 4 + Size(ssh)), ssh, "C")>>
          IN  <<start(<<2>>, <<>>), start(<<3>>, <<2>>), start(<<1>>, <<1, 2>>),
                start(<<2, 2>>, <<>>), start(<<1, 2>>, <<2>>), start(<<2, 1>>, <<0>>)>>
      [] Fam = "fills" ->
          LET data(n) == [j \in 1..n |-> IF j % 2 = 0 THEN MASKED ELSE N(j)]
              filled(dt, n) == [SrcOf(<<3>>, dt, data(3)) EXCEPT !.fv = <<N(n)>>]
              starts(dt) == <<filled(dt, 5), filled(dt, 9), SrcOf(<<3>>, dt, data(3)),
                              SrcOf(<<3>>, dt, Numbers(3, 0)), filled(dt, 5)>>
              types == <<"i1", "i2", "i4", "i8", "f4", "f8", "u1">>
          IN  [j \in 1..Len(types) |-> starts(types[j])]
      [] Fam = "limits" -> One([j \in 1..Len(Shapes3) |-> Src(Shapes3[j])])

Depth == CASE Fam = "joint" -> 4
           [] Fam = "limits" -> 3
           [] Fam \in {"index1", "index2", "kinds", "stack", "mosaic", "pairs", "chunk0",
                       "chunk1", "chunk2", "assign", "fills"} -> 2
           [] Fam = "views" -> 3
           [] OTHER -> 1

(* The move of which a part is made. *)
Divided == IF Fam = "joint" THEN 2 ELSE 0

Aggs == <<"count", "min", "max", "sum", "mean", "std", "var">>

Options ==
    LET a == Len(heap)
        e == heap[a]
        sh == e.sh
    IN  CASE Fam = "index1" ->
               IF moves = 0 THEN IdxAll(a, KeysOf(Wide, sh)) ELSE IdxAll(a, KeysOf(Narrow, sh))
          [] Fam \in {"index2", "kinds"} ->
               IF moves = 0 THEN IdxAll(a, KeysOf(Narrow, sh)) ELSE IdxAll(a, KeysOf(Mini, sh))
          [] Fam = "index3" -> IdxAll(a, KeysOf(Mini, sh))
          [] Fam = "ellipsis" -> IdxAll(a, Loose(sh, IF Len(sh) > 2 THEN 5 ELSE 4))
          [] Fam = "views" -> Views(a, sh)
          [] Fam = "stack" ->
               CASE Len(sh) > 3 -> IF moves = 0 THEN IdxAll(a, KeysOf(Small, sh)) ELSE <<>>
                 [] Len(sh) < 3 /\ moves = 0 -> IdxAll(a, KeysOf(Narrow, sh))
                 [] OTHER -> IdxAll(a, KeysOf(Mini, sh))
          [] Fam = "mosaic" -> IF moves = 0 THEN IdxAll(a, KeysOf(Narrow, sh))
                               ELSE IdxAll(a, KeysOf(Mini, sh))
          [] Fam = "pairs" ->
               IF moves = 0
               THEN <<Bin("sub", 1, 2), Bin("multiply", 1, 2),
                      [op |-> "bcpair", a |-> 1, b |-> 2, which |-> 1],
                      [op |-> "bcpair", a |-> 1, b |-> 2, which |-> 2]>>
               ELSE IdxAll(a, KeysOf(Mini, sh))
          [] Fam = "types" -> [j \in 1..Len(Exact2) |-> Bin(Exact2[j], 1, 2)]
          [] Fam = "numbers" ->
               LET ns == <<Py("int", N(3)), Py("int", N(0)), Py("int", N(-2)), Py("int", N(200)),
                           Py("float", <<1, 2>>), Py("float", N(2)), Py("float", <<-3, 4>>)>>
               IN  [j \in 1..Len(Exact1) |-> Un(Exact1[j], a)]
                   \o Pairs(Exact2, ns, LAMBDA f, n : BinOf(f, H(a), n))
                   \o Pairs(Exact2, ns, LAMBDA f, n : BinOf(f, n, H(a)))
                   \o [j \in 1..Len(Types) |-> As(a, Types[j])]
          [] Fam = "bad" ->
               LET n == 2
                   at(d, key, other) == IF d = 1 THEN <<key, other>> ELSE <<other, key>>
                   wrong(m) == <<KI(m), KI(-m - 1), KI(m + 4), KT(<<m>>), KT(<<0, -m - 1>>),
                                 KT(<<m, 0>>), KT(<<0, 0, m + 1, 0>>),
                                 KM([j \in 1..(m + 1) |-> TRUE]),
                                 KM([j \in 1..(m + 1) |-> j <= m]),
                                 KM([j \in 1..(m + 3) |-> FALSE])>>
                   beside(d) == Mini(sh[3 - d])
                   axes == <<2, 3, -3, -4>>
               IN  FlattenSeq([d \in 1..2 |->
                       Pairs(wrong(sh[d]), beside(d), LAMBDA key, other : Idx(a, at(d, key, other)))])
                   \o [j \in 1..10 |-> Idx(a, <<wrong(sh[1])[j]>>)]
                   \o <<Idx(a, <<FullSlice, FullSlice, KI(0)>>),
                         Idx(a, <<KI(0), KI(0), FullSlice>>), Idx(a, <<KI(0), KI(0), KI(0), KI(0)>>),
                         Idx(a, <<KE, FullSlice, KI(0), KI(0)>>)>>
                   \o Pairs(Aggs, axes, LAMBDA f, ax : Ag(f, a, ax, 0, <<1, 1>>))
                   \o <<Tr(a, <<0>>), Tr(a, <<0, 1, 2>>), Tr(a, <<>>),
                         Bc(a, <<<<0, 4>>>>, <<>>), Bc(a, <<<<1, 5>>>>, <<>>), Bc(a, <<<<0, 1>>>>, <<2>>),
                         Bin("add", a, 1), Bin("multiply", 1, a), Bin("equal", a, 1),
                         [op |-> "bcpair", a |-> a, b |-> 1, which |-> 1],
                         [op |-> "bcpair", a |-> 1, b |-> a, which |-> 1],
                         St(<<a, 1>>, <<2>>, "C"), St(<<a, 2>>, <<2>>, "C"), St(<<2, a>>, <<2>>, "C"),
                         St(<<a, a, 1, a>>, <<2, 2>>, "C"), St(<<2, 2, a>>, <<3>>, "F"),
                         Mo(<<a, 1>>, 0), Mo(<<1, a>>, 0), Mo(<<a, 2>>, 0), Mo(<<a, 2>>, 1),
                         Mo(<<2, a>>, 1), Mo(<<a, a>>, 2), Mo(<<a, a>>, 3), Mo(<<a, a, 2>>, 0)>>
          [] Fam = "save" ->
               [j \in 1..(IF Size(sh) > 8 THEN 9 ELSE Size(sh) + 1) |->
                   [op |-> "save", a |-> a, limit |-> j]]
          [] Fam = "limits" ->
               LET axes == SelectSeq(Upto(0, Len(sh) - 1), LAMBDA d : sh[d + 1] > 0)
                   build == <<Un("negative", a), Bin("add", a, a)>>
                            \o [j \in 1..Len(axes) |-> Ag("max", a, axes[j], 0, <<1, 1>>)]
                            \o [j \in 1..Len(axes) |-> Ag("mean", a, axes[j], 0, <<1, 1>>)]
               IN  IF moves < 2 THEN build
                   ELSE [j \in 1..(IF Size(heap[1].sh) > 8 THEN 9 ELSE Size(heap[1].sh) + 1) |->
                           [op |-> "get", a |-> a, limit |-> j]]
          [] Fam = "joint" ->
               LET n == Len(heap)
                   some == SelectSeq(Upto(1, n), LAMBDA x : Len(heap[x].sh) > 0)
                   unary(x) == <<Un("negative", x), Tr(x, [d \in 1..Len(heap[x].sh) |->
                                                              Len(heap[x].sh) - d])>>
                               \o [d \in 1..Len(heap[x].sh) |->
                                     Ag(IF d = 1 THEN "max" ELSE "sum", x, d - 1, 0, <<1, 1>>)]
                   pairs == SelectSeq(Pairs(Upto(1, n), Upto(1, n), LAMBDA x, y : <<x, y>>),
                                      LAMBDA xy : /\ xy[1] <= xy[2]
                                                  /\ heap[xy[1]].sh = heap[xy[2]].sh)
               IN  IF moves < 3
                   THEN FlattenSeq([j \in 1..Len(some) |-> unary(some[j])])
                        \o [j \in 1..Len(pairs) |-> Bin("add", pairs[j][1], pairs[j][2])]
                   ELSE [j \in 1..n |-> [op |-> "get", hs |-> <<n, j>>, a |-> n,
                                         limit |-> ((j + root + n) % 4) + 1]]
          [] Fam = "assign" ->
               LET stacks == SelectSeq(Upto(1, Len(heap)), LAMBDA x :
                                   prog[x].op \in {"stack", "copy"})
                   ish == heap[1].sh
                   all(x) == LET k == Len(heap[x].sh) - Len(ish)
                             IN  Choose([d \in 1..k |-> Upto(-heap[x].sh[d] - 1, heap[x].sh[d])])
                   sets(x) == Pairs(all(x), <<1, 2, 3, 4>>, LAMBDA ix, b :
                                  [op |-> "setitem", a |-> x, b |-> b, ix |-> ix])
               IN  FlattenSeq([j \in 1..Len(stacks) |-> sets(stacks[j])])
                   \o (IF moves = 0 THEN <<[op |-> "copy", a |-> stacks[1]]>> ELSE <<>>)
          [] Fam = "fills" ->
               IF moves = 0
               THEN Pairs(Upto(1, 5), Upto(1, 5), LAMBDA x, y : St(<<x, y>>, <<2>>, "C"))
                    \o Pairs(Upto(1, 5), Upto(1, 5), LAMBDA x, y : Mo(<<x, y>>, 0))
                    \o FlattenSeq([x \in 1..5 |-> Views(x, heap[x].sh)])
                    \o Pairs(Upto(1, 5), Types, LAMBDA x, dt : As(x, dt))
                    \o [x \in 1..5 |-> [op |-> "meq", a |-> x, v |-> N(1)]]
               ELSE Views(a, sh) \o [j \in 1..Len(Types) |-> As(a, Types[j])]
                    \o <<[op |-> "meq", a |-> a, v |-> N(3)], St(<<a, a>>, <<2>>, "C"),
                          [op |-> "meq", a |-> a, v |-> N(9)]>>
                    \o (IF Len(sh) > 0 THEN <<Mo(<<a, a>>, 0)>> ELSE <<>>)
          [] Fam \in {"chunk0", "chunk1", "chunk2"} /\ moves = 1 ->
               [j \in 1..Size(heap[1].sh) |-> [op |-> "get", a |-> a, limit |-> j]]
          [] Fam \in {"aggs", "aggs2", "plain", "chunk0", "chunk1", "chunk2"} ->
               LET n == sh
                   of(ax) == [j \in 1..7 |-> Ag(Aggs[j], a, ax, 0, <<1, 1>>)]
                             \o (IF n[ax + 1] > 1 THEN <<Ag("std", a, ax, 1, <<1, 1>>),
                                                         Ag("var", a, ax, 1, <<1, 1>>)>> ELSE <<>>)
                             \o [j \in 1..3 |-> Ag("mean", a, ax, 0, <<<<0, 1>>, <<1, 4>>, <<1, 2>>>>[j])]
               IN  IF Len(sh) = 1 THEN of(0) ELSE of(0) \o of(1)

Init == /\ \E starts \in {TLCEval(Starts)} :
               \E j \in 1..Len(starts) :
                 /\ prog = starts[j]
                 /\ root = j
                 /\ heap = TLCEval(FoldLeft(NextHeap, <<>>, starts[j]))
        /\ moves = 0

Next == /\ moves < Depth
        /\ Ok(heap[Len(heap)]) \/ Fam = "assign"
        /\ \E choices \in {TLCEval(Options)} :
               \E j \in 1..Len(choices) :
                 /\ moves # Divided \/ (j + 3 * root) % Parts = Part
                 /\ prog' = Append(prog, choices[j])
                 /\ heap' = TLCEval(NextHeap(heap, choices[j]))
                 /\ moves' = moves + 1
                 /\ root' = IF Divided = 0 THEN root ELSE (37 * root + j) % 10007

Spec == Init /\ [][Next]_vars

(* Programs which have come to their end are emitted. *)
End == moves = Depth \/ ~Ok(heap[Len(heap)]) \/ (Fam = "stack" /\ ~ENABLED Next)
Emitted == ~(End /\ moves > 0) \/ PrintT(<<"CASE", ToJson(prog)>>)

(***************************************************************************)
(* Laws                                                                    *)
(***************************************************************************)
HeapOK == TypeOK(heap)

(* Two arrays look the same. *)
Same(e, f) == e.st = f.st /\ (Ok(e) => e.sh = f.sh /\ e.dt = f.dt /\ e.m = f.m /\ e.p = f.p)

(* Indexing an aggregate or an elementwise result is the same as indexing
   the operands and computing from them. *)
LastStep == prog[Len(prog)]

InsertKey(keys, ax) == SubSeq(keys, 1, ax) \o <<FullSlice>> \o SubSeq(keys, ax + 1, Len(keys))
NewAxis(keys, ax) == ax - Len(SelectSeq(SubSeq(keys, 1, ax), LAMBDA x : x.k = "i"))

PushAggregate ==
    LET s == LastStep IN
    (s.op = "agg" /\ Ok(heap[Len(heap)])) =>
        LET res == heap[Len(heap)]
            all == KeysOf(Mini, res.sh)
        IN  \A j \in 1..Len(all) :
               Same(Index(res, all[j]),
                    Aggregate(s.f, Index(heap[s.a], InsertKey(all[j], s.ax)),
                              NewAxis(all[j], s.ax), s.ddof, s.mdtol))

(* The keys of an operand which has been broadcast. *)
OperandKeys(keys, sh) ==
    LET lead == Len(keys) - Len(sh)
    IN  [d \in 1..Len(sh) |-> IF sh[d] # 1 THEN keys[lead + d]
                              ELSE IF keys[lead + d].k = "i" THEN KI(0) ELSE FullSlice]

PushBinary ==
    LET s == LastStep IN
    (s.op = "bin" /\ s.x.k = "h" /\ s.y.k = "h" /\ Ok(heap[Len(heap)])) =>
        LET res == heap[Len(heap)]
            all == KeysOf(Mini, res.sh)
        IN  \A j \in 1..Len(all) :
               LET got == Index(res, all[j])
                   x == Index(heap[s.x.h], OperandKeys(all[j], heap[s.x.h].sh))
                   y == Index(heap[s.y.h], OperandKeys(all[j], heap[s.y.h].sh))
                   bin == Binary(s.f, x, y, "", "", s)
               IN  (~Ok(bin) \/ bin.sh # got.sh) \/ Same(got, bin)

(* Views keep the elements which they show, plain and masked alike. *)
Hides == \A j \in DOMAIN heap :
            (Ok(heap[j]) /\ \A i \in 1..j : prog[i].op # "agg") => \A q \in DOMAIN heap[j].m :
                \/ IsMasked(heap[j].m[q])
                \/ prog[j].op = "idx" \/ heap[j].m[q] = heap[j].p[q]

(* Transposing back gives what was there. *)
BackPerm(perm) == [d \in 1..Len(perm) |->
                    (CHOOSE q \in 1..Len(perm) : perm[q] = d - 1) - 1]
BackAgain ==
    LET s == LastStep IN
    (s.op = "tr" /\ Ok(heap[Len(heap)])) =>
        Same(Transpose(heap[Len(heap)], BackPerm(s.perm), FALSE), heap[s.a])

(* Two keys one after the other select what their composition selects. *)
Composes ==
    LET s == LastStep IN
    (s.op = "idx" /\ s.a > 1 /\ prog[s.a].op = "idx" /\ Ok(heap[Len(heap)])) =>
        LET im1 == IndexMap(heap[prog[s.a].a].sh, prog[s.a].keys)
            im2 == IndexMap(heap[s.a].sh, s.keys)
        IN  heap[Len(heap)].m = Take(Take(im2.map, im1.map), heap[prog[s.a].a].m)
=============================================================================
