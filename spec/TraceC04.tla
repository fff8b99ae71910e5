------------------------------ MODULE TraceC04 ------------------------------
(* C04: hyperbolic error axes and angular errors.                            *)
EXTENDS StatelessTrace, ErrorAxes

RelNear(a, b, tol) == RNear(a, b, RMul(tol, RAbs(b)))
(* |ev - err| loses relative precision where the two nearly cancel *)
HNear(h, want, ev, tol) == \A i \in 1 .. 3 : RNear(h[i], want[i], RMul(tol, RAdd(want[i], ev[i])))
AngNear(a, h, deg) ==
  LET w == Angular(h) IN \A i \in 1 .. 2 : RNear(a[i], IF deg THEN RDeg(w[i]) ELSE w[i], "1e-7")

Ev(e) == Tup(e.eig)
Want(e) == CASE e.method \in {"noise", "sampling"} -> StatisticalD(e.method, Ev(e), e.n, Num(e.p), e.chisq, e.onall, e.dof)
             [] e.method = "francq" -> Francq(Ev(e), e.n, Num(e.p), e.onall)
             [] e.method = "babamoradi" -> Babamoradi(Ev(e), e.n, Num(e.p))
             [] e.method = "variance" -> Ev(e)

AxesClauses(e) ==
  << Must("axes-shape", FinVec(e.h, 3) /\ FinVec(e.ang, 2)) >> \o
  When(FinVec(e.h, 3) /\ FinVec(e.ang, 2),
    LET h == Tup(e.h)
        want == TLCEval(Want(e))
    IN << Must("error-axes-" \o e.method, HNear(h, want, Ev(e), "1e-6")),
          Must("angular-errors", AngNear(Tup(e.ang), h, FALSE)),
          Clause("minimum-before-maximum",
                 e.method \in {"noise", "sampling"} /\ WellConstrainedD(e.method, Ev(e), e.n, Num(e.p), e.chisq, e.dof)
                   /\ RLe(h[2], h[1]),
                 RLe(At(e.ang, 1), RMul(At(e.ang, 2), "1.000000001"))),
          Clause("normal-errors-inverse", RLt(0, h[1]) /\ RLt(0, h[2]) /\ RLt(0, h[3]),
                 /\ FinVec(e.tn, 3) /\ FinVec(e.back, 3)
                 /\ \A i \in 1 .. 3 : RelNear(At(e.tn, i), NormalErrors(h)[i], "1e-9")
                                      /\ RelNear(At(e.back, i), h[i], "1e-9")) >>)

(* the in-plane share of the covariance matrix of the fit, whose entries go as *)
(* the cubes of the singular values                                           *)
Cube(ev) == RMul(ev, RSqrt(ev))
Explained(ev) == LET a == RAdd(Cube(ev[1]), Cube(ev[2])) IN RDiv(a, RAdd(a, Cube(ev[3])))
FitClauses(e) ==
  << Must("fit-shape", /\ FinVec(e.h, 3) /\ FinVec(e.deg, 2) /\ FinVec(e.rad, 2) /\ FinVec(e.dflt, 2)
                       /\ FinNum(e.one)) >> \o
  When(FinVec(e.h, 3) /\ FinVec(e.deg, 2) /\ FinVec(e.rad, 2) /\ FinVec(e.dflt, 2) /\ FinNum(e.one),
    LET h == Tup(e.h) IN
    << Must("fit-uses-method", HNear(h, TLCEval(Want(e)), Ev(e), "1e-6")),
       Must("fit-angular-degrees", AngNear(Tup(e.deg), h, TRUE)),
       Must("fit-angular-radians", AngNear(Tup(e.rad), h, FALSE)),
       Must("fit-angular-default-degrees", AngNear(Tup(e.dflt), h, TRUE)),
       Must("explained-variance", FinNum(e.share) /\ RNear(Num(e.share), Explained(Ev(e)), "1e-7")),
       Must("fit-angular-error-of-axis", RNear(Num(e.one), RAtan2(h[3], Num(e.len)), "1e-9")) >>)

GrowClauses(e) ==
  LET ok == \A i \in DOMAIN e.angs : FinVec(e.angs[i], 2)
      k == CHOOSE k \in 0 .. Len(e.ps) :
             /\ \A i \in 1 .. k : WellConstrained(e.method, Ev(e), e.n, Num(e.ps[i]), 0)
             /\ k < Len(e.ps) => ~ WellConstrained(e.method, Ev(e), e.n, Num(e.ps[k + 1]), 0)
  IN << Must("levels-shape", ok) >> \o
     When(ok, << Clause("errors-grow-with-confidence", k >= 2 /\ RLt(RMul("1e-14", Ev(e)[1]), Ev(e)[3]),
        \A i \in 1 .. k - 1 : \A j \in 1 .. 2 : RLt(At(e.angs[i], j), At(e.angs[i + 1], j))) >>)

CovClauses(e) ==
  << Must("covariance-shapes", FinVec(e.noise, 3) /\ FinVec(e.sampling, 3) /\ FinVec(e.noised, 3) /\ FinVec(e.mean, 3) /\ FinNum(e.fisher)) >> \o
  When(FinVec(e.noise, 3) /\ FinVec(e.sampling, 3) /\ FinVec(e.noised, 3) /\ FinVec(e.mean, 3) /\ FinNum(e.fisher), <<
     Must("noise-covariance", \A i \in 1 .. 3 : RNear(At(e.noise, i), NoiseVariance(Ev(e), e.n, i),
                                RMul("1e-6", RAdd(NoiseVariance(Ev(e), e.n, i), Sq(Ev(e)[3]))))),
     Must("sampling-covariance", \A i \in 1 .. 3 : RNear(At(e.sampling, i), SamplingVariance(Ev(e), e.n, i),
                                RMul("1e-6", RAdd(SamplingVariance(Ev(e), e.n, i), Sq(Ev(e)[3]))))),
     Must("noise-covariance-freedom", \A i \in 1 .. 3 : RNear(At(e.noised, i), NoiseVarianceD(Ev(e), e.n, i, e.dof),
                                RMul("1e-6", RAdd(NoiseVarianceD(Ev(e), e.n, i, e.dof), Sq(Ev(e)[3]))))),
     Must("variance-of-the-mean", \A i \in 1 .. 3 : RelNear(At(e.mean, i), MeanVariance(Ev(e), e.n, i), "1e-9")),
     Must("fisher-quantile", RelNear(Num(e.fisher), FisherD(e.n, Num(e.p), e.dof), "1e-7")) >>)

(* axes rescaled by the chi-squared quantile of as many degrees of freedom      *)
ScaleClauses(e) == LET n == VLen(e.c.v) IN
  << Must("scaled-shape", FinVec(e.out, n)) >> \o
  When(FinVec(e.out, n), << Must("scaled-axes", \A i \in 1 .. n : RelNear(Sq(At(e.out, i)), RMul(RChiSqQuantile(n, Num(e.p)), At(e.c, i)), "1e-7")) >>)
C04(e) == CASE e.ev = "axes" -> AxesClauses(e) [] e.ev = "fit" -> FitClauses(e)
            [] e.ev = "grow" -> GrowClauses(e) [] e.ev = "cov" -> CovClauses(e)
            [] e.ev = "scale" -> ScaleClauses(e)
=============================================================================
