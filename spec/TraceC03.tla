------------------------------ MODULE TraceC03 ------------------------------
(* C03: strike, dip and rake describe the fitted plane by the right-hand     *)
(* rule, whatever the signs of the principal axes.                           *)
EXTENDS StatelessTrace, Attitude

Shapes(e) == /\ FinMat(e.axes, 3, 3) /\ FinVec(e.normal, 3) /\ FinVec(e.sd, 2) /\ FinVec(e.sdr, 3)
             /\ FinVec(e.dd, 2) /\ FinNum(e.rake)

SD(e) ==
  << Must("constructed", e.built = "ok"),
     Clause("finite", e.built = "ok", Shapes(e)) >> \o
  When(e.built = "ok" /\ Shapes(e),
   LET A == Mat(e.axes)
       n == A[3]
       s == At(e.sd, 1)
       d == At(e.sd, 2)
       rk == Num(e.rake)
       tol == "1e-6"
   IN << Must("strike-dip-in-range", InRange(s, d)),
     Must("right-hand-rule", Describes(s, d, n, tol)),
     Must("normal-agrees", Describes(s, d, Tup(e.normal), tol)),
     Must("normal-points-up", RLe("-1e-9", At(e.normal, 3)) /\ NearUpToSign(Tup(e.normal), Unit(n), "1e-9")),
     Must("dip-direction", NearMod360(At(e.dd, 1), RAdd(s, 90), "1e-9") /\ RNear(At(e.dd, 2), d, "1e-9")),
     Must("strike-dip-rake", /\ RNear(At(e.sdr, 1), s, "1e-9") /\ RNear(At(e.sdr, 2), d, "1e-9")
                             /\ RNear(At(e.sdr, 3), rk, "1e-9")),
     Must("rake-in-range", RLeq3(0, rk, 180)),
     Must("rake-locates-first-axis",
          RNear(RCos(RRad(rk)), RNeg(Dot(DipLine(s, d), A[1])), tol)),
     Must("dip-vector-points-up-dip", FinVec(e.dipdr, 3) /\ Near(Tup(e.dipdr), Vneg(DipLine(s, d)), tol)),
     Clause("gradient-shape", e.grad.s # <<-9>>, FinVec(e.grad, 2)) >> \o
     When(FinVec(e.grad, 2), <<
       Must("slope-is-dip", RNear(RSin(At(e.grad, 2)), RSin(RRad(d)), tol)
                           /\ RNear(RAbs(RCos(At(e.grad, 2))), RCos(RRad(d)), tol)),
       Clause("azimuth-of-normal", RLt("1e-6", RAdd(Sq(n[1]), Sq(n[2]))),
              LET h == RSqrt(RAdd(Sq(n[1]), Sq(n[2])))
              IN RNear(RMul(h, RSin(At(e.grad, 1))), n[1], tol) /\ RNear(RMul(h, RCos(At(e.grad, 1))), n[2], tol)) >>) \o
     When(Len(e.want.s) = 1 /\ e.want.s[1] = 3, <<
       Must("known-plane", Describes(s, d, Unit(Tup(e.want)), "1e-5")),
       Must("known-normal", NearUpToSign(Tup(e.normal), Unit(Tup(e.want)), "1e-6")),
       Clause("known-first-axis", Len(e.a1.s) = 1 /\ e.a1.s[1] = 3,
              RNear(RAbs(RCos(RRad(rk))), RAbs(Dot(DipLine(s, d), Unit(Tup(e.a1)))), "1e-5")) >>))

(* Linear regression z = a x + b y + c reads the same convention. *)
LinearSD(e) ==
  << Must("linear-shapes", FinVec(e.coef, 3) /\ FinVec(e.sd, 2) /\ FinVec(e.dd, 2)) >> \o
  When(FinVec(e.coef, 3) /\ FinVec(e.sd, 2) /\ FinVec(e.dd, 2),
    LET n == Unit(<< RNeg(At(e.coef, 1)), RNeg(At(e.coef, 2)), R(1) >>)
    IN << Must("linear-right-hand-rule", Near(UpNormal(At(e.sd, 1), At(e.sd, 2)), n, "1e-7")),
          Must("linear-dip-in-range", RLeq3(0, At(e.sd, 2), 90)),
          Must("linear-dip-direction", /\ NearMod360(At(e.dd, 1), RAdd(At(e.sd, 1), 90), "1e-9")
                                       /\ RNear(At(e.dd, 2), At(e.sd, 2), "1e-9")),
          Must("linear-known-plane", Near(n, Unit(Tup(e.want)), "1e-6")) >>)

C03(e) == CASE e.ev = "sd" -> SD(e) [] e.ev = "linear" -> LinearSD(e)
=============================================================================
