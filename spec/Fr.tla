--------------------------------- MODULE Fr ---------------------------------
(***************************************************************************)
(* The scalar field of BLS12-381 G1, the field every statement of the      *)
(* library lives in.  An element is its canonical representative written   *)
(* in lower-case hexadecimal without leading zeros ("0" for zero).         *)
(*                                                                         *)
(* TLC evaluates these operators with java/VerifOverrides.java             *)
(* (java.math.BigInteger arithmetic modulo the group order).  The bodies   *)
(* below only fix the arities; every law the specification relies on       *)
(* (associativity, distributivity, inverses, ...) is a law of              *)
(* Z/rZ, checked on samples by FrLaws.                                     *)
(***************************************************************************)
LOCAL INSTANCE TLC
LOCAL INSTANCE Integers

LOCAL Undefined == Assert(FALSE, "Fr operator evaluated without its TLC override")

FAdd(a, b) == Undefined
FSub(a, b) == Undefined
FMul(a, b) == Undefined
FNeg(a) == Undefined
FInv(a) == Undefined              \* FInv("0") = "0"
FPow(a, k) == Undefined           \* k a natural number
FOfInt(i) == Undefined            \* any TLC integer, negative ones included
FRand(tag, i) == Undefined        \* deterministic pseudo-random element
FBit(a, i) == Undefined           \* i-th bit (0 = least significant) of the representative, 0 or 1
FDot(s, t) == Undefined           \* inner product of two sequences of equal length
FSum(s) == Undefined
FReduce(h) == Undefined           \* reduce an arbitrary hex string (no 0x) modulo the order
FMod(a, k) == Undefined           \* representative modulo the positive integer k, as an integer
FLt(a, b) == Undefined            \* representatives compared as integers

FZero == "0"
FOne == "1"

FrLaws(tag) ==
  LET a == FRand(tag, 1) b == FRand(tag, 2) c == FRand(tag, 3) IN
  /\ FAdd(a, b) = FAdd(b, a) /\ FMul(a, b) = FMul(b, a)
  /\ FMul(a, FAdd(b, c)) = FAdd(FMul(a, b), FMul(a, c))
  /\ FMul(a, FMul(b, c)) = FMul(FMul(a, b), c)
  /\ FSub(FAdd(a, b), b) = a /\ FAdd(a, FNeg(a)) = FZero
  /\ FMul(a, FInv(a)) = FOne /\ FInv(FZero) = FZero
  /\ FOfInt(-1) = FNeg(FOne) /\ FPow(a, 3) = FMul(a, FMul(a, a))
  /\ FDot(<<a, b>>, <<c, a>>) = FAdd(FMul(a, c), FMul(a, b))
=============================================================================
