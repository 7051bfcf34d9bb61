------------------------------- MODULE Cells -------------------------------
(***************************************************************************)
(* Elements of virtual arrays, and the arithmetic of elements.             *)
(*                                                                         *)
(* A cell is a pair <<n, d>>:                                              *)
(*    d > 0   the rational number n/d, in lowest terms;                    *)
(*    d = 0   a special float: n = 0 nan, n = 1 +inf, n = -1 -inf;         *)
(*    d = -1  a masked element;                                            *)
(*    d = -2  an opaque value, identified by the token n (two cells of     *)
(*            this kind are equal exactly when they show the same value);  *)
(*    d = -3  a value which this specification leaves undetermined.        *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, Bitwise

MASKED == <<0, -1>>
NAN    == <<0, 0>>
PINF   == <<1, 0>>
NINF   == <<-1, 0>>
ANY    == <<0, -3>>
BIGFILL == <<1, -2>>     \* the default fill value of floats, 1e20

IsMasked(c) == c[2] = -1
IsFin(c)    == c[2] > 0
IsSpecial(c) == c[2] = 0
IsNum(c)    == c[2] >= 0
IsAny(c)    == c[2] = -3
IsInt(c)    == c[2] = 1

AbsI(n) == IF n < 0 THEN -n ELSE n

RECURSIVE GCD(_, _)
GCD(a, b) == IF b = 0 THEN a ELSE GCD(b, a % b)

(* Integers are kept within 32 bits; what does not fit is left undetermined. *)
MaxInt == 2147483647
Limit == 32767                    \* of numerator and denominator of a fraction

Rat(n, d) == IF d = 1 THEN <<n, 1>>
             ELSE LET g == GCD(AbsI(n), AbsI(d))
                      s == IF d < 0 THEN -1 ELSE 1
                      nn == (s * n) \div g
                      dd == (s * d) \div g
                  IN  IF dd = 1 \/ (AbsI(nn) <= Limit /\ dd <= Limit) THEN <<nn, dd>>
                      ELSE ANY
I(n) == <<n, 1>>
B(p) == IF p THEN <<1, 1>> ELSE <<0, 1>>
ZERO == <<0, 1>>

SignI(n) == IF n > 0 THEN 1 ELSE IF n < 0 THEN -1 ELSE 0
SignOf(c) == SignI(c[1])        \* of a number which is not nan

(* Comparison of numbers other than nan. *)
Less(a, b) == IF IsFin(a) /\ IsFin(b)
              THEN LET fa == a[1] \div a[2]
                       fb == b[1] \div b[2]
                   IN  IF fa # fb THEN fa < fb
                       ELSE (a[1] % a[2]) * b[2] < (b[1] % b[2]) * a[2]
              ELSE IF IsFin(a) THEN b = PINF
              ELSE IF IsFin(b) THEN a = NINF
              ELSE a[1] < b[1]

IsNan(c) == c = NAN

Neg(a) == IF IsAny(a) THEN ANY ELSE <<-a[1], a[2]>>       \* -nan = nan
CAbs(a) == <<AbsI(a[1]), a[2]>>

FitsAdd(m, n) == AbsI(m) <= 1000000000 /\ AbsI(n) <= 1000000000
FitsMul(m, n) == n = 0 \/ AbsI(m) <= 1000000000 \div AbsI(n)

Add(a, b) == IF IsAny(a) \/ IsAny(b) THEN ANY
             ELSE IF IsFin(a) /\ IsFin(b)
             THEN IF ~FitsMul(a[1], b[2]) \/ ~FitsMul(b[1], a[2]) THEN ANY
                  ELSE Rat(a[1] * b[2] + b[1] * a[2], a[2] * b[2])
             ELSE IF IsNan(a) \/ IsNan(b) THEN NAN
             ELSE IF IsFin(a) THEN b
             ELSE IF IsFin(b) THEN a
             ELSE IF a = b THEN a ELSE NAN

Sub(a, b) == Add(a, Neg(b))

Mul(a, b) == IF IsAny(a) \/ IsAny(b) THEN ANY
             ELSE IF IsFin(a) /\ IsFin(b)
             THEN IF FitsMul(a[1], b[1]) THEN Rat(a[1] * b[1], a[2] * b[2]) ELSE ANY
             ELSE IF IsNan(a) \/ IsNan(b) \/ a = ZERO \/ b = ZERO THEN NAN
             ELSE <<SignOf(a) * SignOf(b), 0>>

(* True division of floats (the sign of a zero divisor is not known). *)
Div(a, b) == IF IsAny(a) \/ IsAny(b) THEN ANY
             ELSE IF IsNan(a) \/ IsNan(b) THEN NAN
             ELSE IF IsFin(a) /\ IsFin(b)
             THEN IF b = ZERO THEN IF a = ZERO THEN NAN ELSE ANY
                  ELSE IF FitsMul(a[1], b[2]) /\ FitsMul(a[2], b[1])
                       THEN Rat(a[1] * b[2], a[2] * b[1]) ELSE ANY
             ELSE IF IsFin(a) THEN ZERO
             ELSE IF IsFin(b) THEN IF b = ZERO THEN ANY
                                   ELSE <<SignOf(a) * SignOf(b), 0>>
             ELSE NAN

Floor(a) == IF IsFin(a) THEN I(a[1] \div a[2]) ELSE a   \* ANY stays
Ceil(a)  == Neg(Floor(Neg(a)))
Trunc(a) == IF SignOf(a) < 0 THEN Ceil(a) ELSE Floor(a)
(* Round half to even. *)
Rint(a) == IF ~IsFin(a) THEN a
           ELSE LET f == a[1] \div a[2]
                    r == 2 * (a[1] - f * a[2])      \* twice the fraction * d
                IN  IF r < a[2] THEN I(f)
                    ELSE IF r > a[2] THEN I(f + 1)
                    ELSE IF f % 2 = 0 THEN I(f) ELSE I(f + 1)

RECURSIVE PowI(_, _)
PowI(a, n) == IF n = 0 THEN I(1) ELSE Mul(a, PowI(a, n - 1))

MaxC(a, b) == IF IsAny(a) \/ IsAny(b) THEN ANY ELSE IF IsNan(a) \/ IsNan(b) THEN NAN ELSE IF Less(a, b) THEN b ELSE a
MinC(a, b) == IF IsAny(a) \/ IsAny(b) THEN ANY ELSE IF IsNan(a) \/ IsNan(b) THEN NAN ELSE IF Less(b, a) THEN b ELSE a

(***************************************************************************)
(* dtypes                                                                  *)
(***************************************************************************)
Signed == {"i1", "i2", "i4", "i8"}
Unsigned == {"u1", "u2", "u4", "u8"}
Ints   == Signed \cup Unsigned
Floats == {"f2", "f4", "f8"}
(* Cell n stands for the complex number n(1 + 2i). *)
Complex == {"c8", "c16"}
(* Dtypes which are only viewed: of the other byte order, strings (the digits
   of n), moments and spans of time (n seconds). *)
Exotic == {">i4", ">f4", ">f8", "S5", "U5", "M8", "m8"}
Bits(dt) == CASE dt \in {"i1", "u1", "b1"} -> 8 [] dt \in {"i2", "f2", "u2"} -> 16
              [] dt \in {"i4", "f4", ">i4", ">f4", "u4"} -> 32
              [] dt \in {"i8", "f8", ">f8", "c8", "u8", "M8", "m8"} -> 64
              [] dt = "c16" -> 128 [] dt = "S5" -> 40 [] dt = "U5" -> 160
ItemSize(dt) == Bits(dt) \div 8

(* Numbers which need the precision of f8. *)
Precise(dt) == dt \in {"f8", "i4", "i8", "u4", "u8"}

Promote(a, b) ==
    CASE a = b -> a
      [] a = "b1" -> b
      [] b = "b1" -> a
      [] {a, b} \cap Complex # {} ->
             IF "c16" \in {a, b} \/ \E x \in {a, b} : x \in Floats \cup Ints /\ Precise(x)
             THEN "c16" ELSE "c8"
      [] {a, b} \cap {"f4", "f8"} # {} ->
             IF \E x \in {a, b} : Precise(x) THEN "f8" ELSE "f4"
      [] {a, b} \subseteq Signed \/ {a, b} \subseteq Unsigned ->
             IF Bits(a) > Bits(b) THEN a ELSE b
      [] OTHER -> LET u == IF a \in Unsigned THEN a ELSE b
                      i == IF a \in Unsigned THEN b ELSE a
                  IN  IF Bits(i) > Bits(u) THEN i
                      ELSE CASE Bits(u) = 8 -> "i2" [] Bits(u) = 16 -> "i4"
                             [] Bits(u) = 32 -> "i8" [] OTHER -> "f8"

(* The default fill value for a dtype, as NumPy has it. *)
DefaultFill(dt) == CASE dt = "b1" -> I(1)
                     [] dt = "i1" -> I(63)
                     [] dt = "u1" -> I(63)
                     [] dt \in {"i2", "u2"} -> I(16959)
                     [] dt \in {"i4", "i8", ">i4", "u4", "u8"} -> I(999999)
                     [] dt = "f2" -> PINF
                     [] OTHER -> BIGFILL

(* Two's complement wrap-around of an integer. *)
WrapI(n, dt) == CASE dt = "u1" -> n % 256
                  [] dt = "i1" -> ((n + 128) % 256) - 128
                  [] dt = "u2" -> n % 65536
                  [] dt = "i2" -> ((n + 32768) % 65536) - 32768
                  [] OTHER -> n

WrapC(c, dt) == IF dt \in {"u4", "u8"} /\ c[1] < 0 THEN ANY   \* too large
                ELSE I(WrapI(c[1], dt))

(* The value of a cell of some dtype after a cast to dtype dt. *)
Cast(c, dt) ==
    IF dt \in Exotic THEN c
    ELSE IF dt \in Complex THEN ANY          \* but for complex numbers
    ELSE IF ~IsNum(c)
    THEN IF IsMasked(c) \/ dt \in Floats THEN c ELSE ANY
    ELSE IF dt \in Floats THEN c
    ELSE IF dt = "b1" THEN B(c # ZERO)
    ELSE IF IsFin(c) THEN WrapC(Trunc(c), dt)
    ELSE ANY

(* What an array of dtype dt holds when it is given the value c which was
   computed exactly: integers wrap around. *)
Hold(c, dt) == IF dt \in Ints /\ IsInt(c) THEN WrapC(c, dt) ELSE c

(***************************************************************************)
(* Elementwise functions: those the specification computes itself.         *)
(***************************************************************************)
SameUnary == {"negative", "absolute", "sign", "square", "conj"}
FloatUnary == {"floor", "ceil", "trunc", "rint"}
BoolUnary == {"logical_not", "isreal", "iscomplex", "isinf", "isnan"}
ExactUnary == SameUnary \cup FloatUnary \cup BoolUnary \cup {"signbit"}

Arith == {"add", "sub", "subtract", "multiply", "floor_divide", "power",
          "maximum", "minimum", "fmax", "fmin", "fmod"}
Compare == {"greater", "greater_equal", "less", "less_equal", "equal",
            "not_equal", "logical_and", "logical_or", "logical_xor"}
Divide == {"true_divide", "divide"}
Bit == {"bitwise_and", "bitwise_or", "bitwise_xor", "left_shift",
        "right_shift"}
ExactBinary == Arith \cup Compare \cup Divide \cup Bit

UnaryType(f, dt) == CASE f \in BoolUnary \cup {"signbit"} -> "b1"
                      [] f \in FloatUnary -> IF dt \in {"i4", "i8", "u4", "u8"} THEN "f8"
                                             ELSE IF dt \in {"i2", "u2"} THEN "f4" ELSE dt
                      [] OTHER -> dt

BinaryType(f, a, b) == CASE f \in Compare -> "b1"
                         [] f \in Divide -> IF {a, b} \cap Floats = {} THEN "f8"
                                            ELSE Promote(a, b)
                         [] OTHER -> Promote(a, b)

(* What these functions give for complex numbers n(1 + 2i) is what they give
   for the numbers n.  (Complex numbers are ordered by their real parts.) *)
LinearUnary == {"negative", "logical_not", "isinf", "isnan"}
Linear == {"add", "sub", "subtract", "maximum", "minimum"} \cup Compare

(* The dtype which a Python number adopts beside an array of dtype dt. *)
ScalarType(kind, dt) == IF kind = "int" THEN IF dt = "b1" THEN "i8" ELSE dt
                        ELSE IF dt \in Floats THEN dt ELSE "f8"

U(f, x, dt) ==
    IF ~IsNum(x) THEN ANY
    ELSE CASE f = "negative" -> Neg(x)
           [] f = "absolute" -> CAbs(x)
           [] f = "sign"     -> IF IsNan(x) THEN NAN ELSE I(SignOf(x))
           [] f = "square"   -> Mul(x, x)
           [] f = "conj"     -> x
           [] f = "floor"    -> Floor(x)
           [] f = "ceil"     -> Ceil(x)
           [] f = "trunc"    -> Trunc(x)
           [] f = "rint"     -> Rint(x)
           [] f = "logical_not" -> B(x = ZERO)
           [] f = "isreal"   -> B(TRUE)
           [] f = "iscomplex" -> B(FALSE)
           [] f = "isinf"    -> B(x \in {PINF, NINF})
           [] f = "isnan"    -> B(IsNan(x))
           [] f = "signbit"  -> IF x = ZERO \/ IsNan(x) THEN ANY ELSE B(SignOf(x) < 0)

Nat1(c) == IsInt(c) /\ c[1] >= 0

(* x, y have been converted to the common dtype already; dt is the dtype of
   the result. *)
Bi(f, x, y, dt) ==
    IF ~IsNum(x) \/ ~IsNum(y) THEN ANY
    ELSE CASE f = "add" -> Add(x, y)
           [] f \in {"sub", "subtract"} -> Sub(x, y)
           [] f = "multiply" -> Mul(x, y)
           [] f \in Divide -> Div(x, y)
           [] f = "floor_divide" ->
                IF ~IsFin(x) \/ ~IsFin(y) THEN ANY
                ELSE IF y = ZERO THEN IF dt \in Floats THEN ANY ELSE ZERO
                ELSE Floor(Div(x, y))
           [] f = "fmod" ->
                IF ~IsFin(x) \/ ~IsFin(y) THEN ANY
                ELSE IF y = ZERO THEN IF dt \in Floats THEN NAN ELSE ZERO
                ELSE Sub(x, Mul(y, Trunc(Div(x, y))))   \* sign of x
           [] f = "power" ->
                IF ~IsFin(x) \/ ~IsInt(y) \/ AbsI(y[1]) > 6 THEN ANY
                ELSE IF y[1] >= 0 THEN PowI(x, y[1])
                ELSE IF x = ZERO THEN ANY
                ELSE Div(I(1), PowI(x, -y[1]))
           [] f = "maximum" -> MaxC(x, y)
           [] f = "minimum" -> MinC(x, y)
           [] f = "fmax" -> IF IsNan(x) THEN y ELSE IF IsNan(y) THEN x ELSE MaxC(x, y)
           [] f = "fmin" -> IF IsNan(x) THEN y ELSE IF IsNan(y) THEN x ELSE MinC(x, y)
           [] f = "logical_and" -> B(x # ZERO /\ y # ZERO)
           [] f = "logical_or"  -> B(x # ZERO \/ y # ZERO)
           [] f = "logical_xor" -> B((x # ZERO) # (y # ZERO))
           [] f \in Compare /\ (IsNan(x) \/ IsNan(y)) -> B(f = "not_equal")
           [] f = "greater" -> B(Less(y, x))
           [] f = "greater_equal" -> B(~Less(x, y))
           [] f = "less" -> B(Less(x, y))
           [] f = "less_equal" -> B(~Less(y, x))
           [] f = "equal" -> B(x = y)
           [] f = "not_equal" -> B(x # y)
           [] f = "bitwise_and" -> IF Nat1(x) /\ Nat1(y) THEN I(x[1] & y[1]) ELSE ANY
           [] f = "bitwise_or"  -> IF Nat1(x) /\ Nat1(y) THEN I(x[1] | y[1]) ELSE ANY
           [] f = "bitwise_xor" -> IF Nat1(x) /\ Nat1(y) THEN I(x[1] ^^ y[1]) ELSE ANY
           [] f = "left_shift"  -> IF Nat1(y) /\ y[1] < 8 /\ AbsI(x[1]) < 1000000 THEN I(x[1] * 2^(y[1])) ELSE ANY
           [] f = "right_shift" -> IF Nat1(y) /\ y[1] < 8 THEN I(x[1] \div 2^(y[1])) ELSE ANY

(* In numpy.ma these functions mask the result where it is not finite. *)
Domained == Divide \cup {"floor_divide", "fmod", "power"}
MaskedDomain(f, x, y) == f \in Domained \ {"power"} /\ y = ZERO

(***************************************************************************)
(* Aggregates of a sequence of cells, exactly.                             *)
(***************************************************************************)
RECURSIVE SumC(_)
SumC(s) == IF s = <<>> THEN ZERO ELSE Add(Head(s), SumC(Tail(s)))
RECURSIVE SumSq(_)
SumSq(s) == IF s = <<>> THEN ZERO ELSE Add(Mul(Head(s), Head(s)), SumSq(Tail(s)))
RECURSIVE MinS(_)
MinS(s) == IF Len(s) = 1 THEN s[1] ELSE MinC(s[1], MinS(Tail(s)))
RECURSIVE MaxS(_)
MaxS(s) == IF Len(s) = 1 THEN s[1] ELSE MaxC(s[1], MaxS(Tail(s)))

NumsOnly(s) == \A i \in DOMAIN s : IsNum(s[i])
FinOnly(s) == \A i \in DOMAIN s : IsFin(s[i])

MeanS(s) == Div(SumC(s), I(Len(s)))
(* Sum of squares of deviations, divided by n - ddof. *)
VarS(s, ddof) == LET n == Len(s)
                     sum == SumC(s)
                     dev == Sub(SumSq(s), Div(Mul(sum, sum), I(n)))
                 IN  Div(dev, I(n - ddof))

AggType(f, dt) == CASE f = "count" -> "i4"
                    [] f \in {"mean", "std", "var"} ->
                         IF dt \in Floats \cup Complex THEN dt ELSE "f8"
                    [] OTHER -> dt

(* The plain aggregate of a non-empty sequence of cells.  For std this is the
   SQUARE of the value, so that it stays rational. *)
Agg(f, s, ddof) ==
    CASE f = "count" -> I(Len(s))
      [] ~NumsOnly(s) -> ANY
      [] f = "min" -> MinS(s)
      [] f = "max" -> MaxS(s)
      [] f = "sum" -> SumC(s)
      [] f = "mean" -> MeanS(s)
      [] f \in {"std", "var"} -> IF FinOnly(s) /\ Len(s) > ddof THEN VarS(s, ddof) ELSE ANY

(* The squares of deviations of complex numbers n(1 + 2i) are 5 times those of
   the numbers n. *)
AggOf(c, f, dt) == IF dt \in Complex /\ f \in {"std", "var"} /\ ~IsMasked(c)
                   THEN Mul(I(5), c) ELSE c

Unmasked(s) == SelectSeq(s, LAMBDA c : ~IsMasked(c))

(* The masked aggregate; mdtol = <<num, den>> is used by mean only. *)
AggMasked(f, s, ddof, mdtol) ==
    LET u == Unmasked(s)
        n == Len(s)
        nm == n - Len(u)
    IN  CASE f = "count" -> IF \E j \in DOMAIN s : IsAny(s[j]) THEN ANY ELSE I(Len(u))
          [] \E j \in DOMAIN s : IsAny(s[j]) -> ANY    \* perhaps masked
          [] u = <<>> -> MASKED
          [] f = "mean" /\ nm * mdtol[2] > mdtol[1] * n -> MASKED
          [] OTHER -> Agg(f, u, ddof)
=============================================================================
