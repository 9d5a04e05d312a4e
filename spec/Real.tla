-------------------------------- MODULE Real --------------------------------
(* Real numbers for TLC, whose integers are 32 bits wide.                    *)
(*                                                                           *)
(* A real is a string holding a decimal numeral ("0.1", "-3e-7"), or "inf",  *)
(* "-inf", "NaN"; an integer of TLA+ is accepted wherever a real is.  The    *)
(* bodies below are placeholders: TLC takes the operators from               *)
(* java/Real.java (50-digit decimal arithmetic), which RealTest.tla          *)
(* exercises.  Comparisons with "NaN", or with a string that is no number    *)
(* (a recorded panic), are FALSE.                                            *)
EXTENDS Integers, Sequences
LOCAL Stub == CHOOSE x \in {} : TRUE
RNorm(a) == Stub          \* canonical numeral
RAdd(a, b) == Stub
RSub(a, b) == Stub
RMul(a, b) == Stub
RDiv(a, b) == Stub
RNeg(a) == Stub
RAbs(a) == Stub
RLt(a, b) == Stub
RLe(a, b) == Stub
REq(a, b) == Stub
RIsNaN(a) == Stub
RIsFin(a) == Stub
RMax(a, b) == Stub
RMin(a, b) == Stub
RFloor(a) == Stub
RIsInt(a) == Stub
RToInt(a) == Stub         \* nearest TLA+ integer
RSqrt(a) == Stub
RExp(a) == Stub
RLn(a) == Stub
RPow(a, b) == Stub
RSin(a) == Stub
RCos(a) == Stub
RAtan(a) == Stub
RPi == Stub
RLnGamma(a) == Stub       \* ln Gamma(a), a > 0
RDigamma(a) == Stub
RTrigamma(a) == Stub
RLnBeta(a, b) == Stub     \* ln B(a, b)
RGammaP(a, x) == Stub     \* regularised incomplete gamma function, lower
RGammaQ(a, x) == Stub     \* ... and upper
RBetaI(x, a, b) == Stub   \* regularised incomplete beta function
RErfc(a) == Stub
RNear(a, b, rel, abs) == Stub   \* |a-b| <= abs + rel*max(|a|,|b|)
RSum(s) == Stub           \* sum of a sequence
RDot(s, t) == Stub        \* sum of products of two sequences
RMulSeq(s, t) == Stub     \* pointwise product
RSubSeq(s, c) == Stub     \* s[i] - c
RLnSeq(s) == Stub         \* pointwise ln
RIsSeq(s) == Stub         \* is s a sequence (and not a numeral)?
RRem(a, b) == Stub        \* remainder (sign of a) of the binary64 numbers that a, b denote
RFloat(a) == Stub         \* the binary64 number that a denotes, exactly
a ++ b == RAdd(a, b)
a -- b == RSub(a, b)
a ** b == RMul(a, b)
a // b == RDiv(a, b)
=============================================================================
