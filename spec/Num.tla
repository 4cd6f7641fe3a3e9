------------------------------- MODULE Num -------------------------------
(* Real numbers for executable specifications.  A number is written as a string (decimal, or the      *)
(* hexadecimal form of a double, which denotes that double's exact value) or is an integer.           *)
(* Results are rounded to 80 significant digits.  TLC evaluates these operators with java/Num.java     *)
(* (java.math.BigDecimal; series for the elementary functions).  "nan" and "inf" denote no number:     *)
(* every relation on them is false.                                                                    *)
EXTENDS Integers
LOCAL Undef == CHOOSE x \in {"nan"} : TRUE
NIsNum(a) == Undef
NAdd(a, b) == Undef
NSub(a, b) == Undef
NMul(a, b) == Undef
NDiv(a, b) == Undef
NNeg(a) == Undef
NAbs(a) == Undef
NLt(a, b) == Undef
NLe(a, b) == Undef
NEq(a, b) == Undef
NMax(a, b) == Undef
NMin(a, b) == Undef
NInt(a) == Undef
NFloor(a) == Undef        \* an integer
NSqrt(a) == Undef
NPi == Undef
NExp(a) == Undef
NLog(a) == Undef
NSin(a) == Undef
NCos(a) == Undef
NRoundDouble(a) == Undef  \* the nearest double
NRoundFloat(a) == Undef   \* the nearest single-precision number
NUlp(a) == Undef          \* spacing of doubles at this magnitude
(* Complex n by n matrices are [re |-> rows, im |-> rows]; these results are rounded to 40 digits. *)
NCMul(A, B) == Undef      \* product
NCExp(H, t) == Undef      \* exp(-i t H)
NRExp(L, t, v) == Undef   \* exp(t L) v, for a real matrix (rows) and vector
NSum(s) == Undef          \* sum of a sequence
NDot(s, u) == Undef       \* sum of products of two sequences
=============================================================================
