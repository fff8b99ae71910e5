----------------------------- MODULE RealArith -----------------------------
(***************************************************************************)
(* Real arithmetic for TLC.  TLC has 32-bit integers only, so a real is    *)
(* the pair <<hi, lo>> of signed 32-bit halves of an IEEE-754 double and a *)
(* column of reals is the flat tuple <<hi1, lo1, hi2, lo2, ...>>.  Integer *)
(* values and decimal strings ("1e-9") are accepted wherever a real is     *)
(* expected.  The operators below are overridden by java/RealArith.java;   *)
(* the bodies are placeholders that TLC never evaluates.                   *)
(***************************************************************************)
LOCAL INSTANCE Integers
LOCAL Undef == CHOOSE x \in {} : TRUE
R(a) == Undef              \* the canonical representation of a literal
RAdd(a, b) == Undef
RSub(a, b) == Undef
RMul(a, b) == Undef
RDiv(a, b) == Undef
RNeg(a) == Undef
RAbs(a) == Undef
RSqrt(a) == Undef
RSin(a) == Undef
RCos(a) == Undef
RTan(a) == Undef
RAtan2(y, x) == Undef
RAsin(a) == Undef
RAcos(a) == Undef
RExp(a) == Undef
RLn(a) == Undef
RPow(a, b) == Undef
RMax(a, b) == Undef
RMin(a, b) == Undef
RRad(a) == Undef
RDeg(a) == Undef
RFloor(a) == Undef
RLt(a, b) == Undef
RLe(a, b) == Undef
REq(a, b) == Undef
RFinite(a) == Undef
RNaN(a) == Undef
RNear(a, b, tol) == Undef  \* |a - b| <= tol; FALSE on NaN
RInt(a) == Undef           \* nearest integer, as a TLC integer
RShow(a) == Undef          \* decimal string, for reports only
RFQuantile(d1, d2, p) == Undef  \* quantiles of the F and chi-squared distributions
RChiSqQuantile(k, p) == Undef
VLen(c) == Undef
VGet(c, i) == Undef
VSum(c) == Undef
VDot(c, d) == Undef
VShift(c, k) == Undef      \* c - k
VScale(c, k) == Undef
VAdd(c, d) == Undef
VMaxAbs(c) == Undef
VAllFinite(c) == Undef
VNear(c, d, tol) == Undef  \* same length and everywhere within tol
VCol(c, j, m) == Undef     \* column j of a row-major matrix with m columns
VSlice(c, lo, hi) == Undef
VCat(c, d) == Undef
=============================================================================
