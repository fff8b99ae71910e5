------------------------------ MODULE TraceC18 ------------------------------
(* C18: ordinary least squares.  e.pts is the cloud (n x 3) whatever layout   *)
(* it was handed over in.                                                     *)
EXTENDS StatelessTrace, Regress

Fitted(e) ==
  LET n == e.pts.s[1]
      x == Centred(ColV(e.pts, 1))
      y == Centred(ColV(e.pts, 2))
      z == Centred(ColV(e.pts, 3))
      hz == RMax(VMaxAbs(z), "1e-300")
      hx == RMax(VMaxAbs(x), VMaxAbs(y))
      okc == FinVec(e.coef, 3)
      okp == FinMat(e.pred, 3, n)
      okr == FinVec(e.res, n)
      okv == FinMat(e.cov, 3, 3)
      m == Tup(e.coef)
      t == Num(e.tol)
      sz == RMul(t, RAdd(hz, RMul(hx, RMax(RAbs(m[1]), RAbs(m[2])))))
      r == Res(x, y, z, m)
      sse == VDot(r, r)
      N3 == Normal(x, y)
      U(i) == IF i = 3 THEN R(1) ELSE hx
  IN << Must("coefficients-shape", okc), Must("predictions-shape", okp), Must("residuals-shape", okr),
        Must("covariance-shape", okv), Must("standard-errors-shape", FinVec(e.se, 3)),
        Must("counts", e.counts = <<n, 3, n - 3, 2>>), Must("input-unchanged", e.same = 1) >> \o
     When(okc, <<
        Must("normal-equations", RNear(VDot(x, r), 0, RMul(RMul(n, hx), sz)) /\ RNear(VDot(y, r), 0, RMul(RMul(n, hx), sz))
                                  /\ RNear(VSum(r), 0, RMul(n, sz))) >>) \o
     When(okc /\ okp, <<
        Must("predicted-at-centred-points", VNear(VSlice(e.pred.v, 1, n), x, RMul("1e-9", hx)) /\ VNear(VSlice(e.pred.v, n + 1, 2 * n), y, RMul("1e-9", hx))),
        Must("predictions", VNear(VSlice(e.pred.v, 2 * n + 1, 3 * n), Predicted(x, y, m), sz)) >>) \o
     When(okc /\ okr, << Must("residuals", VNear(e.res.v, r, sz)) >>) \o
     When(okc /\ okv, <<
        IF n = 3 THEN Must("three-points-no-covariance", \A i \in 1 .. 9 : REq(At(e.cov, i), 0))
        ELSE LET P == MM(Mat(e.cov), N3)
                 s == RAdd(sse, RMul(n, Sq(sz)))
             IN Must("covariance", \A i \in 1 .. 3 : \A j \in 1 .. 3 :
                  RNear(RMul(P[i][j], RDiv(U(i), U(j))), IF i = j THEN sse ELSE 0, RMul(s, RAdd("1e-6", RMul(1000, t))))) >>) \o
     When(okv /\ FinVec(e.se, 3), << Must("standard-errors", \A i \in 1 .. 3 :
        RNear(Sq(At(e.se, i)), El(e.cov, i, i), RMul("1e-9", RAbs(El(e.cov, i, i))))) >>)
(* every answer is the one a fresh regression gives                           *)
Asked(e) == << Must("order-of-questions-irrelevant", e.got.s = e.want.s /\ e.got.v = e.want.v) >>
Short(e) == << Must("swapped-layout-same-fit", e.got.s = e.want.s /\ VNear(e.got.v, e.want.v, RMul("1e-9", RAdd("1e-300", VMaxAbs(e.want.v))))) >>
(* standard errors along and across the fitted gradient, in degrees           *)
Errors(e) ==
  LET V == Mat(e.cov)
      c == RCos(Num(e.az))
      s == RSin(Num(e.az))
      v11 == RAdd(RAdd(RMul(Sq(c), V[1][1]), RMul(RMul(2, RMul(c, s)), V[1][2])), RMul(Sq(s), V[2][2]))
      v22 == RAdd(RSub(RMul(Sq(s), V[1][1]), RMul(RMul(2, RMul(c, s)), V[1][2])), RMul(Sq(c), V[2][2]))
      top == RMul("1e-9", RAdd(V[1][1], V[2][2]))
      ok == FinMat(e.cov, 3, 3) /\ FinVec(e.out, 2)
  IN << Must("errors-shape", ok) >> \o
     When(ok, << Must("errors-in-fitted-frame", RNear(Sq(RRad(At(e.out, 1))), v11, top) /\ RNear(Sq(RRad(At(e.out, 2))), v22, top)) >>)
(* the linear orientation turns the coefficients into its dip direction       *)
Turned(e) ==
  LET ok == FinVec(e.coef, 3) /\ FinNum(e.az) /\ FinNum(e.slope) /\ FinVec(e.out, 3)
      a == At(e.coef, 1)
      b == At(e.coef, 2)
      g == RSqrt(RAdd(Sq(a), Sq(b)))
      c == RCos(Num(e.az))
      s == RSin(Num(e.az))
      t == RAdd(RMul("1e-9", g), "1e-300")
  IN << Must("turned-shape", ok) >> \o
     When(ok, << Must("turned-into-dip-direction", RNear(RSub(RMul(c, a), RMul(s, b)), RNeg(g), t) /\ RNear(RAdd(RMul(s, a), RMul(c, b)), 0, t)),
                 Must("turned-coefficients", RNear(At(e.out, 1), RNeg(g), t) /\ RNear(At(e.out, 2), 0, t) /\ RNear(At(e.out, 3), At(e.coef, 3), "1e-12")),
                 Must("slope-of-the-gradient", RNear(RSin(Num(e.slope)), RMul(g, RCos(Num(e.slope))), RAdd(t, RMul("1e-9", RCos(Num(e.slope))))) /\ RLe(0, Num(e.slope))) >>)
(* a closed curve at `level` standard deviations of a covariance              *)
Ellipse(e) ==
  LET ok == FinMat(e.out, e.n, 2)
      V == Mat(e.cov)
      det == RSub(RMul(V[1][1], V[2][2]), Sq(V[1][2]))
      d(k) == << RSub(El(e.out, k, 1), At(e.c, 1)), RSub(El(e.out, k, 2), At(e.c, 2)) >>
      q(p) == RDiv(RAdd(RSub(RMul(V[2][2], Sq(p[1])), RMul(RMul(2, V[1][2]), RMul(p[1], p[2]))), RMul(V[1][1], Sq(p[2]))), det)
      cr(k) == RSub(RMul(d(k)[1], d(k + 1)[2]), RMul(d(k)[2], d(k + 1)[1]))
      s == RSqrt(RAdd(V[1][1], V[2][2]))
      l2 == Sq(Num(e.level))
  IN << Must("ellipse-shape", ok) >> \o
     When(ok, << Must("ellipse-is-level-set", \A k \in 1 .. e.n : RNear(q(d(k)), l2, RMul(l2, "1e-6"))),
                 Must("ellipse-closed", Near(d(1), d(e.n), RMul(RMul(s, Num(e.level)), "1e-9"))),
                 Must("ellipse-goes-around", \A k \in 1 .. e.n - 1 : RLt(0, RMul(cr(k), cr(1)))
                       /\ RNear(RAbs(cr(k)), RMul(RMul(l2, RSqrt(det)), RSin(RDiv(RMul(2, Pi), e.n - 1))), RMul(RMul(l2, RSqrt(det)), "1e-6"))) >>)
C18(e) == CASE e.ev = "turned" -> Turned(e) [] e.ev = "errors" -> Errors(e) [] e.ev = "ellipse" -> Ellipse(e) [] e.ev = "fitted" -> Fitted(e) [] e.ev = "asked" -> Asked(e) [] e.ev = "layout" -> Short(e)
=============================================================================
