------------------------------ MODULE Profile ------------------------------
(* A side view: the viewpoint is the angle v (anticlockwise from east) of the *)
(* direction that points right on the screen.                                 *)
EXTENDS Attitude
LOCAL INSTANCE TLC

Along(v, p) == RAdd(RMul(p[1], RCos(v)), RMul(p[2], RSin(v)))
(* distance towards the viewer *)
Toward(v, p) == RSub(RMul(p[1], RSin(v)), RMul(p[2], RCos(v)))
(* a linear scale is given by its values at 0 and 1 *)
Ratio(sc) == RSub(sc[2], sc[1])
OnScreen(sc, x) == RAdd(sc[1], RMul(x, Ratio(sc)))
(* the direction on the screen of a plane with normal n: rises g = -(n.right)/n3 per unit *)
ScreenDir(n, v, sx, sy) == Unit(<<RMul(n[3], Ratio(sx)), RNeg(RMul(Along(v, n), Ratio(sy)))>>)
ParallelTo(d, deg, tol) == LET r == RRad(deg) IN RNear(RSub(RMul(d[1], RSin(r)), RMul(d[2], RCos(r))), 0, tol)
(* error hyperbola: half width b at the centre, asymptotes of slope b/r, r    *)
(* the radius of the error ellipse where the view cuts it                     *)
Radius(A, h, v) ==
  LET u == RSub(v, RAtan2(A[1][2], A[1][1]))
  IN RDiv(1, RSqrt(RAdd(RDiv(Sq(RCos(u)), h[1]), RDiv(Sq(RSin(u)), h[2]))))
(* the outline, in data units: x = -w, 0, w above and back below              *)
Outline(A, h, v, w) ==
  LET b == RSqrt(h[3])
      t == RMul(RDiv(b, Radius(A, h, v)), w)
  IN << <<RNeg(w), t>>, <<R(0), b>>, <<w, t>>, <<w, RNeg(t)>>, <<R(0), RNeg(b)>>, <<RNeg(w), RNeg(t)>> >>
=============================================================================
