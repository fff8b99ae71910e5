------------------------------ MODULE TraceC26 ------------------------------
(* C26: the quadrics, error ellipse and figures of a planar fit.             *)
EXTENDS StatelessTrace, Quadric, Cone, ErrorAxes

Sv(e) == Tup(e.s)
Cv(e) == CovOf(Sv(e), e.n)
Off(e) == RMul(Sv(e)[1], Sv(e)[2])
Largest(M) == RMax(RMax(MaxAbs(M[1]), MaxAbs(M[2])), RMax(MaxAbs(M[3]), MaxAbs(M[4])))
Is(x, M) == FinMat(x, 4, 4) /\ MNear(Mat(x), M, RMul("1e-7", Largest(M)))
Quadrics(e) ==
  LET c == TLCEval(Cv(e))
      F == Mat(e.A)
      hy == TLCEval(Hyperboloid(c))
      el == TLCEval(Ellipsoid(c, Num(e.level), Off(e)))
  IN << Must("covariance", FinMat(e.cov, 3, 3) /\ \A i, j \in 1 .. 3 :
               RNear(El(e.cov, i, j), IF i = j THEN c[i] ELSE R(0), RMul("1e-7", IF i = j THEN c[i] ELSE c[3]))),
        Must("hyperboloid", Is(e.own, hy) /\ Is(e.own2, hy)),
        Must("hyperboloid-of-the-data", Is(e.data, InData(F, hy))),
        Must("ellipsoid", \/ Is(e.con, InData(Upward(F), el))
                          \/ (RLt(RAbs(F[3][3]), "1e-9") /\ Is(e.con, InData([i \in 1 .. 3 |-> Vneg(F[i])], el)))
                          \/ RLt(RAbs(F[3][3]), "1e-9") /\ Is(e.con, InData(F, el))) >>

(* directions seen from the origin *)
Trend(e, k) == IF e.figure = 1 THEN RRad(El(e.tp, 1, k)) ELSE El(e.tp, 1, k)
Plunge(e, k) == IF e.figure = 1 THEN RRad(RSub(90, El(e.tp, 2, k))) ELSE El(e.tp, 2, k)
Toward(e, k) == LET t == Trend(e, k)
                    p == Plunge(e, k) IN <<RMul(RSin(t), RCos(p)), RMul(RCos(t), RCos(p)), RSin(p)>>
Ellipses(e) ==
  LET c == TLCEval(Cv(e))
      F == Mat(e.A)
      v == Num(e.level)
      ok == Len(e.tp.s) = 2 /\ e.tp.s[1] = 2 /\ Finite(e.tp)
      m == e.tp.s[2]
      dirs == TLCEval([k \in 1 .. m |-> InFrame(Upward(F), Toward(e, k))])
      \* seen from well outside of the ellipsoid, with a clear upward side
      apt == /\ RLt(RMul(Sq(v), c[3]), RMul("0.8", Sq(Off(e)))) /\ RLt("1e-6", RAbs(F[3][3])) /\ RLt(RDiv(Sv(e)[1], Sv(e)[3]), 120)
             /\ RLt("1e-4", RDiv(Sq(v), RDiv(Sq(Off(e)), c[2]))) /\ RLt(RDiv(Sq(v), RDiv(Sq(Off(e)), c[1])), "1e4")
  IN IF ~ apt THEN <<>> ELSE
     << Must("ellipse-shape", ok /\ m > 30) >> \o
     When(ok, << Must("ellipse-on-the-cone", \A k \in 1 .. m : RNear(SeenRatio(c, v, Off(e), dirs[k]), 1, "1e-5") /\ RLt(0, dirs[k][3])),
                 Must("ellipse-once-around", OnceAround(TLCEval([k \in 1 .. m |-> SeenParam(c, dirs[k])]), RMul("0.5", e.step))) >>)

(* points in the frame of the fit *)
MeanOf(e) == LET s(j) == VSum(ColV(e.P, j)) IN <<RDiv(s(1), e.n), RDiv(s(2), e.n), RDiv(s(3), e.n)>>
Fine(e) == RMul("1e-9", RAdd(VMaxAbs(e.P.v), 1))
(* coordinate j of all points, as a flat column *)
Coords(e, F, m, j) ==
  LET part(i) == VScale(VShift(ColV(e.P, i), m[i]), F[j][i]) IN TLCEval(VAdd(VAdd(part(1), part(2)), part(3)))
All(e) == LET F == Mat(e.A)
              m == TLCEval(MeanOf(e)) IN TLCEval([j \in 1 .. 3 |-> Coords(e, F, m, j)])
Extent(C, j) == LET M == VMaxAbs(C[j]) IN <<RSub(M, VMaxAbs(VShift(C[j], M))), RSub(VMaxAbs(VShift(C[j], RNeg(M))), M)>>
Every(n, sparse) == IF sparse /\ n > 10000 THEN (n + 9999) \div 10000 ELSE 1
Rounded(x, want, unit) == RNear(x, want, RAdd(RMul("0.51", unit), RMul("1e-9", RAbs(want))))
Panel(e) ==
  LET C == All(e)
      st == Every(e.n, e.sparse = 1)
      m == (e.n + st - 1) \div st
      tol == Fine(e)
      ok == FinMat(e.pts, m, 2)
      X == Extent(C, e.a)
      Y == Extent(C, e.b)
      bar(x, p, q) == FinMat(x, 2, 2) /\ \/ Near(Row(x, 1), p, tol) /\ Near(Row(x, 2), q, tol)
                                         \/ Near(Row(x, 1), q, tol) /\ Near(Row(x, 2), p, tol)
      drawn(got, col) == IF st = 1 THEN VNear(got, col, tol)
                         ELSE \A k \in 1 .. m : RNear(VGet(got, k), VGet(col, (k - 1) * st + 1), tol)
      flat(x) == bar(x, <<X[1], R(0)>>, <<X[2], R(0)>>)
      up(x) == bar(x, <<R(0), Y[1]>>, <<R(0), Y[2]>>)
      h == StatisticalD("sampling", TLCEval([i \in 1 .. 3 |-> RDiv(Sq(Sv(e)[i]), e.n - 1)]), e.n, R("0.95"), 0, 1, 2)
      w == RMul(2, RDeg(RAtan2(RSqrt(h[3]), RSqrt(h[e.a]))))
  IN << Must("panel-shape", ok),
        Must("panel-bars", IF e.b = 3 THEN Len(e.bars) = 1 /\ flat(e.bars[1])
                           ELSE Len(e.bars) = 2 /\ ((flat(e.bars[1]) /\ up(e.bars[2])) \/ (flat(e.bars[2]) /\ up(e.bars[1])))) >> \o
     When(ok, << Must("panel-points", drawn(ColV(e.pts, 1), C[e.a]) /\ drawn(ColV(e.pts, 2), C[e.b])),
                 Clause("panel-colors", e.colored = 1, FinVec(e.color, m) /\ drawn(e.color.v, C[3])),
                 Clause("panel-title", e.b = 3, /\ FinVec(e.title, 2)
                                                /\ Rounded(At(e.title, 1), RSub(X[2], X[1]), "1e-6")
                                                /\ RNear(At(e.title, 2), w, "0.006")) >>)
Residual(e) == LET Z == Extent(All(e), 3) IN << Must("largest-residual", FinNum(e.got) /\ Rounded(Num(e.got), RSub(Z[2], Z[1]), RAdd("1e-6", Fine(e)))) >>
Comparison(e) ==
  LET C == All(e)
      tol == Fine(e)
      w == RDiv(Num(e.width), 2)
      h == IF IsNone(e.height) THEN RDiv(w, 25) ELSE RDiv(Num(e.height), 2)
      sm == RMul("1e-9", w)
      ok == FinMat(e.pts, e.n, 2)
  IN << Must("comparison-shape", ok),
        Must("comparison-view", FinVec(e.xlim, 2) /\ FinVec(e.ylim, 2) /\ Near(Tup(e.xlim), <<RNeg(w), w>>, sm) /\ Near(Tup(e.ylim), <<RNeg(h), h>>, RMul("1e-9", h))),
        Must("comparison-nominal", FinMat(e.nominal, 2, 2) /\ Near(Row(e.nominal, 1), <<RNeg(w), R(0)>>, sm) /\ Near(Row(e.nominal, 2), <<w, R(0)>>, sm)),
        Must("comparison-bands", e.bands = <<"Noise-based", "Sampling-based", "Variance">>) >> \o
     When(ok, << Must("comparison-points", VNear(ColV(e.pts, 1), C[2], tol) /\ VNear(ColV(e.pts, 2), C[3], tol)) >>)
C26(e) == CASE e.ev = "quadric" -> Quadrics(e) [] e.ev = "ellipse" -> Ellipses(e)
            [] e.ev = "panels" -> << Must("three-panels", e.count = 3) >>
            [] e.ev = "panel" -> Panel(e) [] e.ev = "largest" -> Residual(e) [] e.ev = "comparison" -> Comparison(e)
=============================================================================
