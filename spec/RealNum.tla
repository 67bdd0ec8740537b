------------------------------ MODULE RealNum ------------------------------
(* Real numbers for TLC.  A real is a pair <<hi, lo>>: the two 32-bit halves of the IEEE-754 double that       *)
(* approximates it (this is also how the harness records numbers, so recorded values are exact bit patterns). *)
(* The operators below have no TLA+ body: their meaning is real arithmetic, evaluated by java/RealNum.java.    *)
EXTENDS Integers, Sequences

Unevaluated == CHOOSE x \in {} : TRUE

RInt(n)      == Unevaluated        \* the integer n
RDec(m, k)   == Unevaluated        \* m * 10^k   (k an integer of either sign)
RAdd(a, b)   == Unevaluated
RSub(a, b)   == Unevaluated
RMul(a, b)   == Unevaluated
RDiv(a, b)   == Unevaluated
RNeg(a)      == Unevaluated
RAbs(a)      == Unevaluated
RMax(a, b)   == Unevaluated
RMin(a, b)   == Unevaluated
RSqrt(a)     == Unevaluated
RSin(a)      == Unevaluated
RCos(a)      == Unevaluated
RAtan2(y, x) == Unevaluated
RExp(a)      == Unevaluated
RLn(a)       == Unevaluated
RLog1p(a)    == Unevaluated
RLe(a, b)    == Unevaluated        \* IEEE comparison: FALSE when either is not a number
RLt(a, b)    == Unevaluated
RFinite(a)   == Unevaluated        \* neither infinite nor NaN
RIsNaN(a)    == Unevaluated
RShow(a)     == Unevaluated        \* decimal string, for messages
RUnif(seed, k)    == Unevaluated   \* k-th number of pseudo-random stream `seed`, uniform in [0, 1)
RPick(seed, k, n) == 0             \* k-th integer of the stream, uniform in 0..n-1 (any choice is allowed)
RPi          == RDec(31415926, -7) \* overridden with the double nearest to pi

RZero == RInt(0)
ROne  == RInt(1)
RHalf == RDec(5, -1)
RTwo  == RInt(2)
RSq(a) == RMul(a, a)
RGe(a, b) == RLe(b, a)
RGt(a, b) == RLt(b, a)

\* |a - b| <= tol * (1 + max(|a|, |b|)), both finite
RClose(a, b, tol) ==
  /\ RFinite(a) /\ RFinite(b)
  /\ RLe(RAbs(RSub(a, b)), RMul(tol, RAdd(ROne, RMax(RAbs(a), RAbs(b)))))

\* the same with an explicit scale
RNear(a, b, tol, scale) ==
  /\ RFinite(a) /\ RFinite(b) /\ RLe(RAbs(RSub(a, b)), RMul(tol, scale))
=============================================================================
