------------------------------ MODULE Quadric -------------------------------
(* The quadrics of a fit with axes A (rows), singular values s and n points.  *)
(* Its covariance is diagonal in its own frame.                               *)
EXTENDS Linear
LOCAL INSTANCE TLC

CovOf(s, n) == TLCEval([i \in 1 .. 3 |-> RDiv(RMul(4, RMul(s[i], Sq(s[i]))), n)])
Diag4(d) == TLCEval([i \in 1 .. 4 |-> [j \in 1 .. 4 |-> IF i = j THEN d[i] ELSE R(0)]])
(* x^2/c1 + y^2/c2 - z^2/c3 = 1 *)
Hyperboloid(c) == Diag4(<<RDiv(1, c[1]), RDiv(1, c[2]), RDiv(-1, c[3]), R(-1)>>)
(* the ellipsoid of squared semi-axes level^2 c, centered up the third axis   *)
Ellipsoid(c, level, d) ==
  LET q == TLCEval([i \in 1 .. 3 |-> RMul(Sq(level), c[i])])
  IN << <<RDiv(1, q[1]), R(0), R(0), R(0)>>, <<R(0), RDiv(1, q[2]), R(0), R(0)>>,
        <<R(0), R(0), RDiv(1, q[3]), RDiv(RNeg(d), q[3])>>,
        <<R(0), R(0), RDiv(RNeg(d), q[3]), RSub(RDiv(Sq(d), q[3]), 1)>> >>
Aug4(A) == TLCEval([i \in 1 .. 4 |-> IF i = 4 THEN <<R(0), R(0), R(0), R(1)>> ELSE Append(A[i], R(0))])
(* a form given in the frame A, in the coordinates of the data                *)
InData(A, M) == LET B == Aug4(A) IN MM(Tr(B), MM(M, B))
Form(M, p) == Quad(M, Append(p, R(1)))
(* the line from the origin along u touches the quadric where this vanishes   *)
Touch(M, u) ==
  LET v == Append(u, R(0))
      o == <<R(0), R(0), R(0), R(1)>>
  IN RSub(Sq(Dot(v, MV(M, o))), RMul(Quad(M, v), M[4][4]))
(* seen from the origin outside of it, the ellipsoid fills the cone           *)
(* x^2/q1 + y^2/q2 <= z^2/(d^2 - q3) about its third axis                     *)
Outside(c, level, d) == RLt(RMul(Sq(level), c[3]), Sq(d))
SeenRatio(c, level, d, u) ==
  RDiv(RMul(RAdd(RDiv(Sq(u[1]), c[1]), RDiv(Sq(u[2]), c[2])), RSub(Sq(d), RMul(Sq(level), c[3]))), RMul(Sq(level), Sq(u[3])))
SeenParam(c, u) == RAtan2(RDiv(u[2], RSqrt(c[2])), RDiv(u[1], RSqrt(c[1])))
(* the frame turned upward *)
Upward(A) == IF RLt(A[3][3], 0) THEN TLCEval([i \in 1 .. 3 |-> Vneg(A[i])]) ELSE A
=============================================================================
