----------------------------- MODULE RealArith -----------------------------
(***************************************************************************)
(* Real numbers for TLC.  A real is an IEEE double with an infinitesimal   *)
(* part (a dual number): RDual(v, d) is v + d*eps with eps^2 = 0, so that  *)
(* evaluating a formula on dual numbers yields in its eps part the exact   *)
(* directional derivative of that formula.  The specifications state only  *)
(* forward formulas; their derivatives follow by this calculus.            *)
(*                                                                         *)
(* The operators below are evaluated by java/tlc2/overrides/RealArith.java *)
(* (the bodies here only fix their arity and say what they mean).          *)
(***************************************************************************)
EXTENDS Integers, Sequences

LOCAL Opaque == CHOOSE x : TRUE

R(i) == Opaque             \* the real number of an integer (identity on reals)
RLit(s) == Opaque          \* the real number written in the string s
RDual(v, d) == Opaque      \* v + d*eps
RVal(x) == Opaque          \* the value part
RDer(x) == Opaque          \* the derivative part
RAdd(a, b) == Opaque
RSub(a, b) == Opaque
RMul(a, b) == Opaque
RDiv(a, b) == Opaque
RNeg(a) == Opaque
RAbs(a) == Opaque
RExp(a) == Opaque
RLog(a) == Opaque
RSqrt(a) == Opaque
RPow(a, p) == Opaque       \* p is a constant
RSin(a) == Opaque
RCos(a) == Opaque
RTanh(a) == Opaque
RLt(a, b) == Opaque        \* comparisons look at the value part
RLe(a, b) == Opaque
REq(a, b) == Opaque
RIsNaN(a) == Opaque
RIsFinite(a) == Opaque
RFloor(a) == Opaque        \* an integer
RFloat32(a) == Opaque      \* nearest single precision number
RClose(a, b, tol) == Opaque \* |a-b| <= tol*(1+max(|a|,|b|)); NaN ~ NaN, Inf ~ same Inf
RNear(a, b, rel, abs) == Opaque \* |a-b| <= rel*max(|a|,|b|) + abs; NaN ~ NaN, Inf ~ same Inf
RSum(s) == Opaque          \* sum of a sequence of reals
RDot(s, t) == Opaque       \* inner product of two sequences of reals
Force(s) == s              \* the same sequence, evaluated once (TLC functions are lazy)
LoadTrace(file) == Opaque  \* the lines of an ndjson file; JSON numbers with . or e are reals

a \oplus b == RAdd(a, b)
a \ominus b == RSub(a, b)
a \otimes b == RMul(a, b)
a \oslash b == RDiv(a, b)

R0 == R(0)
R1 == R(1)
RMax(a, b) == IF RLt(a, b) THEN b ELSE a
RMin(a, b) == IF RLt(b, a) THEN b ELSE a
=============================================================================
