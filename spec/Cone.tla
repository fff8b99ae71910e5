------------------------------- MODULE Cone -------------------------------
(* The error cone of a plane with axes A (rows, orthonormal) and squared      *)
(* error axes h: the directions (x, y, z) in the frame A with                 *)
(* x^2/h1 + y^2/h2 = z^2/h3.  Its dual is the cone of the poles of the planes *)
(* that touch it: h1 x^2 + h2 y^2 = h3 z^2.  The sheet below the plane is     *)
(* called upper (its poles lie above).                                        *)
EXTENDS Girdle
LOCAL INSTANCE TLC

Roots(h) == TLCEval([i \in 1 .. 3 |-> RSqrt(h[i])])
InFrame(A, p) == TLCEval([i \in 1 .. 3 |-> Dot(A[i], p)])
FromFrame(A, c) == Vadd(Vadd(Vmul(c[1], A[1]), Vmul(c[2], A[2])), Vmul(c[3], A[3]))
(* the parameter of a direction on the cone (or on its nominal girdle), and   *)
(* the direction of a parameter                                               *)
ConeParam(s, c) == RAtan2(RDiv(c[2], s[2]), RDiv(c[1], s[1]))
ConeDir(s, z, u) == Unit(<<RMul(s[1], RCos(u)), RMul(s[2], RSin(u)), RMul(z, s[3])>>)
DualParam(s, c, sg) == RAtan2(RMul(RMul(sg, c[2]), s[2]), RMul(RMul(sg, c[1]), s[1]))
DualDir(s, level, sg, u) ==
  Vmul(sg, Unit(<<RDiv(RMul(RMul(level, s[3]), RCos(u)), s[1]), RDiv(RMul(RMul(level, s[3]), RSin(u)), s[2]), R(1)>>))
(* how far inside the error band (inside the cone of poles) a direction lies: *)
(* below 1 is inside                                                          *)
BandRatio(h, c) == RDiv(RDiv(Sq(c[3]), h[3]), RAdd(RDiv(Sq(c[1]), h[1]), RDiv(Sq(c[2]), h[2])))
PoleRatio(h, level, c) == RDiv(RAdd(RMul(h[1], Sq(c[1])), RMul(h[2], Sq(c[2]))), RMul(RMul(Sq(level), h[3]), Sq(c[3])))
(* steps of the parameter from point to point, on (-pi, pi]                   *)
TurnBy(a, b) == LET d == RDeg(RSub(b, a)) IN RSub(Mod360(RAdd(d, 180)), 180)
RECURSIVE TurnFrom(_, _)
TurnFrom(u, k) == IF k >= Len(u) THEN R(0) ELSE RAdd(TurnBy(u[k], u[k + 1]), TurnFrom(u, k + 1))
OnceAround(u, gap) ==
  /\ \/ \A k \in 1 .. Len(u) - 1 : RLe("-1e-3", TurnBy(u[k], u[k + 1]))
     \/ \A k \in 1 .. Len(u) - 1 : RLe(TurnBy(u[k], u[k + 1]), "1e-3")
  /\ RNear(RAbs(TurnFrom(u, 1)), 360, "1e-3")
  /\ \A k \in 1 .. Len(u) - 1 : RLe(RAbs(TurnBy(u[k], u[k + 1])), gap)
=============================================================================
