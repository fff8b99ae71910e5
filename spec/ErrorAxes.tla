----------------------------- MODULE ErrorAxes -----------------------------
(* Hyperbolic error axes of a fit and the angular errors they imply, as a    *)
(* function of the eigenvalues ev of the data covariance, the number n of    *)
(* points and the confidence level p.                                        *)
EXTENDS Linear

(* quantile of the F distribution with (2, d) degrees of freedom; closed form *)
Fisher(n, p) == LET d == R(n - 2)
                IN RMul(RDiv(d, 2), RSub(RPow(RSub(1, p), RDiv(-2, d)), 1))
ChiSq(p) == RMul(-2, RLn(RSub(1, p)))
Quantile(n, p, chisq) == IF chisq = 1 THEN ChiSq(p) ELSE Fisher(n, p)
(* the same with any number of degrees of freedom *)
FisherD(n, p, dof) == IF dof = 2 THEN Fisher(n, p) ELSE RFQuantile(dof, n - dof, p)
QuantileD(n, p, chisq, dof) == IF dof = 2 THEN Quantile(n, p, chisq)
                               ELSE IF chisq = 1 THEN RChiSqQuantile(dof, p) ELSE FisherD(n, p, dof)

NoiseVarianceD(ev, n, i, dof) == RDiv(RMul(4, RMul(ev[i], ev[3])), n - dof)
NoiseVariance(ev, n, i) == NoiseVarianceD(ev, n, i, 2)
(* the variance of the mean, from the variance of the data *)
MeanVariance(ev, n, i) == RDiv(ev[i], n - 1)
SamplingVariance(ev, n, i) == RMul(RDiv(2, n - 1), Sq(ev[i]))
Deviation(method, ev, n, i) ==
  RSqrt(IF method = "noise" THEN NoiseVariance(ev, n, i) ELSE SamplingVariance(ev, n, i))

(* errors move inwards within the plane and outwards along the normal *)
Inwards(ev, err, i) == RAbs(RSub(ev[i], err))
Outwards(nominal, err) == RAdd(nominal, err)
Nominal3(ev, n, onall) == IF onall = 1 THEN ev[3] ELSE RDiv(ev[3], n - 1)
StatisticalD(method, ev, n, p, chisq, onall, dof) ==
  LET z == QuantileD(n, p, chisq, dof)
      err(i) == RMul(z, Deviation(method, ev, n, i))
  IN << Inwards(ev, err(1), 1), Inwards(ev, err(2), 2), Outwards(Nominal3(ev, n, onall), err(3)) >>
Statistical(method, ev, n, p, chisq, onall) == StatisticalD(method, ev, n, p, chisq, onall, 2)
Francq(ev, n, p, onall) ==
  LET k == RSqrt(RDiv(RMul(2, Fisher(n, p)), n - 2))
  IN << Inwards(ev, RMul(k, ev[1]), 1), Inwards(ev, RMul(k, ev[2]), 2),
        Outwards(Nominal3(ev, n, onall), RMul(k, ev[3])) >>
Babamoradi(ev, n, p) ==
  LET k == RMul(RDiv(RMul(2, Fisher(n, p)), n - 2), RDiv(R(n * n - 1), n))
  IN << RMul(k, ev[1]), RMul(k, ev[2]), RMul(k, ev[3]) >>

Angular(h) == << RAtan2(RSqrt(h[3]), RSqrt(h[1])), RAtan2(RSqrt(h[3]), RSqrt(h[2])) >>
(* in-plane axes whose error stays below their variance: the regime in which *)
(* the errors are ordered and grow with the confidence level                 *)
WellConstrainedD(method, ev, n, p, chisq, dof) ==
  LET z == QuantileD(n, p, chisq, dof)
  IN \A i \in 1 .. 2 : RLt(RMul(z, Deviation(method, ev, n, i)), ev[i])
WellConstrained(method, ev, n, p, chisq) == WellConstrainedD(method, ev, n, p, chisq, 2)
NormalErrors(h) == << RDiv(Sq(h[3]), h[1]), RDiv(Sq(h[3]), h[2]), h[3] >>
=============================================================================
