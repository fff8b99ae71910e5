------------------------------ MODULE TraceC16 ------------------------------
(* C16: hyperbolic error bands.                                              *)
EXTENDS StatelessTrace, Hyper, FiniteSets

Geo(e) == [h |-> Tup(e.h), T |-> Mat(e.T), a |-> Mat(e.axes), m |-> Tup(e.means), rev |-> e.rev = 1]
(* the point k of the band's own frame: side -1 below, 0 nominal, 1 above     *)
Pt(g, r1, r2, x, side) == Page(g.a[1], g.rev, g.m, << x, RMul(side, HalfWidth(r1, r2, x)) >>)
Scale(g, r1, r2, x, t) == RMul(t, RAdd(RAdd(1, MaxAbs(g.m)), RAdd(RAbs(x), HalfWidth(r1, r2, x))))
(* a side of the band: column k of out (2 x n) belongs to x_k, or x_(n+1-k)   *)
IsSide(out, x, g, side, back) ==
  LET n == VLen(x.v)
      r1 == ViewRadius2(g.h, g.T, g.a, 1)
      r2 == ViewRadius2(g.h, g.T, g.a, 2)
      t == ViewTol(g.a[1])
  IN \A k \in 1 .. n :
       LET xk == At(x, IF back THEN n + 1 - k ELSE k)
       IN Near(<< El(out, 1, k), El(out, 2, k) >>, Pt(g, r1, r2, xk, side), Scale(g, r1, r2, xk, t))
Band(e) ==
  LET n == VLen(e.x.v)
      g == Geo(e)
      ok == FinMat(e.nom, 2, n) /\ FinMat(e.bot, 2, n) /\ FinMat(e.top, 2, n)
  IN << Must("band-shape", ok) >> \o
     When(ok, << Must("nominal-line", IsSide(e.nom, e.x, g, 0, FALSE)),
                 Must("lower-side", IsSide(e.bot, e.x, g, -1, FALSE)),
                 Must("upper-side-backwards", IsSide(e.top, e.x, g, 1, TRUE)) >>)
(* a drawn area: lower side forwards, upper side backwards, maybe closed      *)
Drawn(e) ==
  LET n == VLen(e.x.v)
      g == Geo(e)
      ok == FinMat(e.xy, 2 * n, 2) \/ FinMat(e.xy, 2 * n + 1, 2)
      r1 == ViewRadius2(g.h, g.T, g.a, 1)
      r2 == ViewRadius2(g.h, g.T, g.a, 2)
      t == ViewTol(g.a[1])
  IN << Must("area-shape", ok), Must("one-area", e.areas = 1) >> \o
     When(ok, << Must("area-of-the-last-data",
        \A k \in 1 .. 2 * n :
          LET xk == At(e.x, IF k <= n THEN k ELSE 2 * n + 1 - k)
          IN Near(Row(e.xy, k), Pt(g, r1, r2, xk, IF k <= n THEN -1 ELSE 1), Scale(g, r1, r2, xk, t))) >>)
Line(e) == LET n == VLen(e.x.v) IN
  << Must("nominal-line-shape", FinMat(e.xy, 2, n)) >> \o When(FinMat(e.xy, 2, n), << Must("nominal-line-drawn", IsSide(e.xy, e.x, Geo(e), 0, FALSE)) >>)
(* an area drawn by a figure: every vertex lies on the band, on both sides,   *)
(* over at least the given range                                              *)
Figure(e) ==
  LET g == Geo(e)
      r1 == ViewRadius2(g.h, g.T, g.a, 1)
      r2 == ViewRadius2(g.h, g.T, g.a, 2)
      n == e.xy.s[1]
      ok == Len(e.xy.s) = 2 /\ Finite(e.xy)
      on(k, s) == RNear(El(e.xy, k, 2), RMul(s, HalfWidth(r1, r2, El(e.xy, k, 1))), Scale(g, r1, r2, El(e.xy, k, 1), "1e-8"))
  IN << Must("figure-shape", ok) >> \o
     When(ok, <<
       Must("figure-area-is-the-band", \A k \in 1 .. n : on(k, 1) \/ on(k, -1)),
       Must("figure-both-sides", \A s \in {1, -1} : \A end \in {1, 2} : \E k \in 1 .. n : on(k, s)
             /\ (IF end = 1 THEN RLe(El(e.xy, k, 1), At(e.range, 1)) ELSE RLe(At(e.range, 2), El(e.xy, k, 1)))) >>)
(* half widths alone, squared semiaxes given                                  *)
Values(e) == LET n == VLen(e.x.v) IN
  << Must("values-shape", FinVec(e.out, n)) >> \o
  When(FinVec(e.out, n), << Must("half-widths", \A k \in 1 .. n :
     LET w == HalfWidth(At(e.h, 1), At(e.h, 2), At(e.x, k)) IN RNear(At(e.out, k), w, RMul(w, "1e-9"))) >>)
(* parametric curves with semiaxes a around a center                          *)
Curve(e) ==
  LET n == e.n
      ok == e.xy.s = <<2, n>>
      p(k) == << RDiv(RSub(El(e.xy, 1, k), At(e.c, 1)), At(e.a, 1)), RDiv(RSub(El(e.xy, 2, k), At(e.c, 2)), At(e.a, 2)) >>
      u(k) == RDiv(RMul(RMul(2, Pi), k - 1), n - 1)
      fin(k) == RFinite(El(e.xy, 1, k)) /\ RFinite(El(e.xy, 2, k))
  IN << Must("curve-shape", ok) >> \o
     When(ok, << IF e.kind = "ellipse"
       THEN Must("ellipse-points", \A k \in 1 .. n : Near(p(k), <<RCos(u(k)), RSin(u(k))>>, "1e-9"))
       ELSE Must("hyperbola-points", \A k \in 1 .. n : IF fin(k)
              THEN LET q == IF e.up = 1 THEN p(k) ELSE << p(k)[2], p(k)[1] >>
                       s == RAdd(1, Sq(q[2]))
                   IN RNear(RSub(Sq(q[2]), Sq(q[1])), 1, RMul(s, "1e-9")) /\ RNear(RMul(q[2], RCos(u(k))), 1, "1e-9")
              ELSE TRUE),
            \* only the two ends of the branches may be left out
            IF e.kind = "ellipse" THEN Must("ellipse-whole", \A k \in 1 .. n : fin(k)) ELSE Must("hyperbola-whole", Cardinality({k \in 1 .. n : ~fin(k)}) <= 2) >>)
C16(e) == CASE e.ev = "band" -> Band(e) [] e.ev = "drawn" -> Drawn(e) [] e.ev = "line" -> Line(e)
            [] e.ev = "figure" -> Figure(e) [] e.ev = "values" -> Values(e) [] e.ev = "curve" -> Curve(e)
=============================================================================
