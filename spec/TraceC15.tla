------------------------------ MODULE TraceC15 ------------------------------
(* C15: error ellipses of poles.                                             *)
EXTENDS StatelessTrace, Girdle

Diag(m) == <<El(m, 1, 1), El(m, 2, 2), El(m, 3, 3)>>
Read(lay, a, b) ==
  CASE lay = "traditional" -> PoleTraditional(a, b)
    [] lay = "natural" -> Natural(a, b)
    [] lay = "traditional-degrees" -> PoleTraditional(RRad(a), RRad(b))
    [] lay = "natural-degrees" -> Natural(RRad(a), RRad(b))
    [] lay = "patch" -> PoleTraditional(RNeg(a), b)
    [] lay = "polar" -> PolarPlot(a, b)
Ring(e) ==
  LET A == Mat(e.axes)
      d == Diag(e.cov)
      n == e.n
      ok == FinMat(e.out, n, 2) \/ FinMat(e.out, n + 1, 2)
      up == Vmul(UpSign(A), A[3])
      pt(k) == Read(e.lay, El(e.out, k, 1), El(e.out, k, 2))
  IN << Must("ellipse-shape", ok) >> \o
     When(ok, <<
       Must("ellipse-of-the-pole", \A k \in 1 .. n : Near(pt(k), PolePoint(A, d, Num(e.level), Param(k, n)), "1e-7")),
       Must("ellipse-around-upward-normal", \A k \in 1 .. n : RLt(0, Dot(pt(k), up))),
       Must("ellipse-closed", Near(pt(1), pt(n), "1e-7")) >>)
(* the set of a sign-flipped frame: every point of one is a point of the other *)
Same(e) ==
  LET p(x, k) == Natural(El(x, k, 1), El(x, k, 2))
      ok == FinMat(e.a, e.n, 2) /\ FinMat(e.b, e.n, 2)
  IN << Must("flipped-shape", ok) >> \o
     When(ok, << Must("independent-of-axis-signs",
        \A k \in 1 .. e.n : \E j \in 1 .. e.n : Near(p(e.a, k), p(e.b, j), "1e-6")) >>)
(* where a pole is drawn on a polar plot: dip direction and dip *)
Pole(e) == << Must("pole-drawn-at-dip-direction", FinVec(e.out, 2)
                /\ Near(PolarPlot(At(e.out, 1), At(e.out, 2)), UpNormal(Num(e.strike), Num(e.dip)), "1e-9")) >>
C15(e) == CASE e.ev = "pole" -> Ring(e) [] e.ev = "flip" -> Same(e) [] e.ev = "drawn" -> Pole(e)
=============================================================================
