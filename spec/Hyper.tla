------------------------------- MODULE Hyper --------------------------------
(* Hyperbolic error bands seen along a direction.  h: squared semiaxes of     *)
(* the error ellipsoid, T: change of frame applied before viewing, a: the two *)
(* unit viewing axes.                                                         *)
EXTENDS Linear
LOCAL INSTANCE TLC

(* squared radius of the ellipsoid along a direction                          *)
Radius2(h, T, a) ==
  LET b == MV(T, a) IN RDiv(1, Sum(TLCEval([i \in DOMAIN h |-> RDiv(Sq(b[i]), h[i])])))
(* in two dimensions the axes are those of the view already                   *)
ViewRadius2(h, T, a, k) == IF Len(h) = 2 THEN h[k] ELSE Radius2(h, T, a[k])
(* half width of the band at distance x along the nominal line                *)
HalfWidth(r1, r2, x) == RSqrt(RMul(r2, RAdd(1, RDiv(Sq(x), r1))))
(* apparent dip: sine and cosine of the inclination of the first viewing axis *)
Flat(a) == [i \in DOMAIN a |-> IF i = Len(a) THEN R(0) ELSE a[i]]
CosDip(a) == RDiv(Norm(Flat(a)), Norm(a))
SinDip(a) == RDiv(RAbs(a[Len(a)]), Norm(a))
(* a point of the band's own frame on the page                                *)
Page(a, rev, m, p) ==
  LET c == CosDip(a)
      s == IF rev THEN RNeg(SinDip(a)) ELSE SinDip(a)
  IN << RAdd(m[1], RSub(RMul(c, p[1]), RMul(s, p[2]))), RAdd(m[2], RAdd(RMul(s, p[1]), RMul(c, p[2]))) >>
(* nearly horizontal views are not turned                                     *)
ViewTol(a) == IF RLt(SinDip(a), "1.1e-6") THEN "3e-6" ELSE "1e-8"
=============================================================================
