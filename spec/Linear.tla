------------------------------- MODULE Linear -------------------------------
(* Linear algebra over RealArith.  A logged array is a record [s, v]: its    *)
(* shape s and its row-major content v (a flat column).  s = <<-1>> marks an *)
(* exception, <<-2>> None, <<-3>> a value that is not numeric.               *)
EXTENDS RealArith, Integers, Sequences
LOCAL INSTANCE TLC

Sq(a) == RMul(a, a)
RLeq3(a, b, c) == RLe(a, b) /\ RLe(b, c)

IsErr(x) == x.s = <<-1>>
IsNone(x) == x.s = <<-2>>
IsNum(x) == x.s = <<>>
IsArr(x, shape) == x.s = shape
IsVec(x, n) == x.s = <<n>>
IsMat(x, n, m) == x.s = <<n, m>>
Finite(x) == VAllFinite(x.v)
FinNum(x) == IsNum(x) /\ Finite(x)
FinVec(x, n) == IsVec(x, n) /\ Finite(x)
FinMat(x, n, m) == IsMat(x, n, m) /\ Finite(x)

Num(x) == VGet(x.v, 1)
At(x, i) == VGet(x.v, i)
El(x, i, j) == VGet(x.v, (i - 1) * x.s[2] + j)
Tup(x) == TLCEval([i \in 1 .. VLen(x.v) |-> VGet(x.v, i)])
Row(x, i) == TLCEval([j \in 1 .. x.s[2] |-> El(x, i, j)])
ColV(x, j) == VCol(x.v, j, x.s[2])            \* a flat column
Mat(x) == TLCEval([i \in 1 .. x.s[1] |-> Row(x, i)])

(* tuples of reals *)
RECURSIVE SumFrom(_, _)
SumFrom(u, i) == IF i > Len(u) THEN R(0) ELSE RAdd(u[i], SumFrom(u, i + 1))
Sum(u) == SumFrom(u, 1)
Dot(u, w) == Sum(TLCEval([i \in DOMAIN u |-> RMul(u[i], w[i])]))
Norm(u) == RSqrt(Dot(u, u))
Vadd(u, w) == TLCEval([i \in DOMAIN u |-> RAdd(u[i], w[i])])
Vsub(u, w) == TLCEval([i \in DOMAIN u |-> RSub(u[i], w[i])])
Vmul(k, u) == TLCEval([i \in DOMAIN u |-> RMul(k, u[i])])
Vneg(u) == TLCEval([i \in DOMAIN u |-> RNeg(u[i])])
Cross(u, w) == << RSub(RMul(u[2], w[3]), RMul(u[3], w[2])),
                  RSub(RMul(u[3], w[1]), RMul(u[1], w[3])),
                  RSub(RMul(u[1], w[2]), RMul(u[2], w[1])) >>
Unit(u) == Vmul(RDiv(1, Norm(u)), u)
Near(u, w, tol) == Len(u) = Len(w) /\ \A i \in DOMAIN u : RNear(u[i], w[i], tol)
NearUpToSign(u, w, tol) == Near(u, w, tol) \/ Near(Vneg(u), w, tol)
MV(M, u) == TLCEval([i \in DOMAIN M |-> Dot(M[i], u)])
VM(u, M) == TLCEval([j \in DOMAIN M[1] |-> Sum(TLCEval([i \in DOMAIN M |-> RMul(u[i], M[i][j])]))])
Tr(M) == TLCEval([j \in DOMAIN M[1] |-> [i \in DOMAIN M |-> M[i][j]]])
MM(A, B) == TLCEval([i \in DOMAIN A |-> VM(A[i], B)])
Quad(M, u) == Dot(u, MV(M, u))
MNear(A, B, tol) == Len(A) = Len(B) /\ \A i \in DOMAIN A : Near(A[i], B[i], tol)
Eye(n) == TLCEval([i \in 1 .. n |-> [j \in 1 .. n |-> IF i = j THEN R(1) ELSE R(0)]])
Orthonormal(M, tol) == \A i \in DOMAIN M : \A j \in i .. Len(M) :
                          RNear(Dot(M[i], M[j]), IF i = j THEN 1 ELSE 0, tol)
Det3(M) == Dot(M[1], Cross(M[2], M[3]))
MaxOf(a, b) == RMax(a, b)
RECURSIVE MaxAbsFrom(_, _)
MaxAbsFrom(u, i) == IF i > Len(u) THEN R(0) ELSE RMax(RAbs(u[i]), MaxAbsFrom(u, i + 1))
MaxAbs(u) == MaxAbsFrom(u, 1)

(* angles, in degrees *)
Pi == RAcos(-1)
Mod360(a) == RSub(a, RMul(360, RFloor(RDiv(a, 360))))
NearMod360(a, b, tol) == LET d == Mod360(RSub(a, b)) IN RLe(d, tol) \/ RLe(RSub(360, d), tol)
=============================================================================
