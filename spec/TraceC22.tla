------------------------------ MODULE TraceC22 ------------------------------
(* C22: side views of the viewer.                                            *)
EXTENDS StatelessTrace, Profile, FiniteSets

Len2(t) == IF Len(t.s) = 1 THEN t.s[1] ELSE 0
Tol == "1e-9"
Scaled(a, b) == RMul(Tol, RAdd(1, RAdd(RAbs(a), RAbs(b))))
Close(a, b) == RNear(a, b, Scaled(a, b))
(* translate(tx, ty) rotate(deg) *)
Placed(t, v, n, o, sx, sy) ==
  IF Len2(t) = 3 /\ Finite(t)
  THEN /\ RNear(At(t, 1), OnScreen(sx, Along(v, o)), RMul("1e-8", RAdd(1, RMul(RAbs(Ratio(sx)), RAdd(Norm(o), 1)))))
       /\ RNear(At(t, 2), OnScreen(sy, o[3]), RMul("1e-8", RAdd(1, RMul(RAbs(Ratio(sy)), RAdd(Norm(o), 1)))))
       /\ ParallelTo(ScreenDir(n, v, sx, sy), At(t, 3), "1e-7")
  ELSE FALSE
Drawn(out, A, h, v, w, rx, ry) ==
  LET o == Outline(A, h, v, RDiv(w, rx))
  IN IF Len2(out) = 12 /\ Finite(out)
     THEN \A k \in 1 .. 6 : /\ Close(At(out, 2 * k - 1), RMul(o[k][1], rx))
                            /\ Close(At(out, 2 * k), RMul(o[k][2], ry))
     ELSE FALSE
(* the outline fades out at the ends of what is shown: a square around the    *)
(* plane's place, whose half side is half the width along the error asymptote *)
Reach(A, h, v, w, rx, ry) ==
  LET a == RMul(Radius(A, h, v), rx)
      b == RMul(RSqrt(h[3]), ry)
  IN RMul(RDiv(w, 2), RDiv(RAbs(a), RSqrt(RAdd(Sq(a), Sq(b)))))
Square(t, r) == /\ FinVec(t, 4)
                /\ Close(At(t, 1), RNeg(r)) /\ Close(At(t, 2), RNeg(r)) /\ Close(At(t, 3), RMul(2, r)) /\ Close(At(t, 4), RMul(2, r))
Faded(r, A, h, v, w, rx, ry) ==
  LET half == TLCEval(Reach(A, h, v, w, rx, ry))
  IN r.masks = 1 /\ r.mask # "" /\ Square(r.box, half) /\ Square(r.rect, half) /\ \A i \in DOMAIN r.worn : r.worn[i] = r.mask
Transform(e) ==
  << Must("plane-placed-and-turned", Placed(e.out, Num(e.v), Row(e.axes, 3), Tup(e.offset), Tup(e.sx), Tup(e.sy))) >>
Hyperbola(e) ==
  LET A == Mat(e.axes)
      h == Tup(e.h)
      sx == Tup(e.sx)
      sy == Tup(e.sy)
  IN << Must("hyperbola-placed-and-turned", Placed(e.transform, Num(e.v), A[3], Tup(e.offset), sx, sy)),
        Must("hyperbola-outline", Drawn(e.path, A, h, Num(e.v), Num(e.width), Ratio(sx), IF e.scaled = 1 THEN Ratio(sy) ELSE Ratio(sx))),
        Must("hyperbola-fades-at-its-ends", Faded(e, A, h, Num(e.v), Num(e.width), Ratio(sx), IF e.scaled = 1 THEN Ratio(sy) ELSE Ratio(sx))),
        Must("hyperbola-one-closed-path", e.paths = 1 /\ e.closed = 1 /\ e.visible = 1),
        Must("hyperbola-nominal-line", e.line = e.nominal) >>
(* reading the data: mean and centred points *)
Data(e) ==
  LET n == e.arr.s[1]
      ok == FinVec(e.mean, 3) /\ FinMat(e.centered, n, 3)
      big == RAdd(VMaxAbs(e.arr.v), "1e-300")
  IN << Must("plane-data-shape", ok) >> \o
     When(ok, << Must("plane-data-mean", \A j \in 1 .. 3 : RNear(At(e.mean, j), IF e.given = 1 THEN At(e.want, j) ELSE RDiv(VSum(ColV(e.arr, j)), n), RMul("1e-12", big))),
                 Must("plane-data-centred", \A i \in 1 .. n : \A j \in 1 .. 3 :
                     RNear(El(e.centered, i, j), RSub(El(e.arr, i, j), At(e.mean, j)), RMul("1e-12", big))) >>)
Dips(e) ==
  LET n == Row(e.axes, 3)
      ok == FinVec(e.dip, 2) /\ VAllFinite(e.apparent.v) /\ Len2(e.apparent) = Len2(e.az)
      steep == RAbs(n[3])
      dip == At(e.dip, 1)
      dir == At(e.dip, 2)
  IN << Must("dip-shape", ok), Must("dip-same-again", e.again = e.dip) >> \o
     When(ok, << Must("dip-and-direction-of-normal",
                   Near(<<RMul(RSin(dip), RSin(dir)), RMul(RSin(dip), RCos(dir)), RCos(dip)>>, Unit(n), "3e-8")),
                 Must("dip-range", RLeq3(0, dip, Pi) /\ RLe(RAbs(dir), Pi)),
                 Must("apparent-dip", \A k \in 1 .. Len2(e.az) :
                     LET a == At(e.apparent, k)
                         down == RAdd(RMul(n[1], RSin(At(e.az, k))), RMul(n[2], RCos(At(e.az, k))))
                     IN /\ RLe(RAbs(a), RMul("1.5707963267949", 1))
                        /\ RNear(RSub(RMul(RSin(a), n[3]), RMul(RCos(a), down)), 0, "1e-7")) >>)
Trail(e) ==
  LET n == e.points.s[1]
      v == Num(e.v)
      o == Tup(e.offset)
      sx == Tup(e.sx)
      sy == Tup(e.sy)
      tol(sc) == RMul("1e-8", RAdd(1, RMul(RAbs(Ratio(sc)), RAdd(VMaxAbs(e.points.v), Norm(o)))))
  IN << Must("line-drawn-where-points-are",
       IF Len2(e.out) = 2 * n /\ Finite(e.out)
       THEN \A i \in 1 .. n : LET p == Vadd(Row(e.points, i), o) IN
              /\ RNear(At(e.out, 2 * i - 1), OnScreen(sx, Along(v, p)), tol(sx))
              /\ RNear(At(e.out, 2 * i), OnScreen(sy, p[3]), tol(sy))
       ELSE FALSE) >>
RECURSIVE Total(_, _)
Total(c, i) == IF i > Len(c) THEN 0 ELSE c[i] + Total(c, i + 1)
Average(e) ==
  LET n == e.centers.s[1]
      tot == Total(e.counts, 1)
      m(j) == RDiv(Sum(TLCEval([i \in 1 .. n |-> RMul(e.counts[i], El(e.centers, i, j))])), tot)
  IN << Must("centre-of-all-points", FinVec(e.out, 3) /\ \A j \in 1 .. 3 :
                RNear(At(e.out, j), m(j), RMul("1e-12", RAdd(1, VMaxAbs(e.centers.v))))) >>
Column(m, j) == {El(m, i, j) : i \in 1 .. m.s[1]}
Mid(m, j) ==
  LET S == Column(m, j)
      lo == CHOOSE x \in S : \A y \in S : RLe(x, y)
      hi == CHOOSE x \in S : \A y \in S : RLe(y, x)
  IN RDiv(RAdd(lo, hi), 2)
Extrema(e) == << Must("middle-of-the-centres", FinVec(e.out, 3) /\ \A j \in 1 .. 3 :
                RNear(At(e.out, j), Mid(e.centers, j), RMul("1e-12", RAdd(1, VMaxAbs(e.centers.v))))) >>
Fixed(e) == << Must("angle-on-interval", FinNum(e.out) /\ RLe(RAbs(Num(e.out)), Pi)
                 /\ RNear(RCos(Num(e.out)), RCos(Num(e.in)), "1e-9") /\ RNear(RSin(Num(e.out)), RSin(Num(e.in)), "1e-9")) >>

(* the whole view.  e.planes: uid, axes, h, center, group (index of its group *)
(* or 0), points (whether it has a trace); e.groups: uid, axes, h             *)
Ids(s) == {s[i].uid : i \in DOMAIN s}
Of(e, uid) == CHOOSE i \in DOMAIN e.planes : e.planes[i].uid = uid
OffsetOf(e, p) == Vsub(Tup(p.center), <<Mid(e.centers, 1), Mid(e.centers, 2), Mid(e.centers, 3)>>)
(* ticks: << place on the screen, what it says >>; labels are whole numbers, and  *)
(* places may be half a pixel off                                                *)
Ticks(t, s, from) ==
  LET slack == RAdd("0.500001", RMul("0.75", RAbs(RDiv(1, Ratio(s)))))
  IN IF ~ (Finite(t) /\ Len(t.s) = 2) THEN FALSE ELSE t.s[1] >= 2 /\ \A i \in 1 .. t.s[1] : LET r == Row(t, i)
                                  at == RSub(RDiv(RSub(r[1], s[1]), Ratio(s)), from)
                              IN RNear(r[2], at, slack)
Shot(e) ==
  LET v == RSub(Num(e.azimuth), RDiv(Pi, 2))
      sx == Tup(e.x)
      sy == Tup(e.y)
      ps == e.planes
      off(i) == OffsetOf(e, ps[i])
      grouped == {i \in DOMAIN ps : ps[i].group > 0}
      shown(r, A, h, o) == /\ Placed(r.transform, v, A[3], o, sx, sy)
                           /\ Drawn(r.path, A, h, v, R(150), Ratio(sx), Ratio(sy))
                           /\ Faded(r, A, h, v, R(150), Ratio(sx), Ratio(sy))
                           /\ r.visible = 1 /\ r.paths = 1 /\ r.closed = 1
      ok == VAllFinite(e.x.v) /\ VAllFinite(e.y.v) /\ FinVec(e.x, 2) /\ FinVec(e.y, 2)
      in(a, r) == RLeq3(RMin(r[1], r[2]), a, RMax(r[1], r[2]))
      xr == Tup(e.xr)
      yr == Tup(e.yr)
  IN << Must("view-has-scales", ok) >> \o
     When(ok, <<
       Must("view-same-scale-both-ways", RLt(0, Ratio(sx)) /\ RLt(Ratio(sy), 0) /\ RNear(RAdd(Ratio(sx), Ratio(sy)), 0, RMul("1e-9", Ratio(sx)))),
       Must("view-holds-all-planes", \A i \in DOMAIN ps : in(OnScreen(sx, Along(v, off(i))), xr) /\ in(OnScreen(sy, off(i)[3]), yr)),
       Must("view-elevations-on-the-axis", Ticks(e.ticks[2], sy, RSub(0, Mid(e.centers, 3)))),
       Must("view-distances-on-the-axis", Ticks(e.ticks[1], sx, RDiv(RSub(xr[1], sx[1]), Ratio(sx)))),
       Must("view-each-plane-once", Len(e.single) = Len(ps) /\ Ids(e.single) = Ids(ps)),
       Must("view-back-to-front", \A j \in 1 .. Len(e.single) - 1 :
              LET zz(k) == IF e.single[k].uid \in Ids(ps) THEN Toward(v, off(Of(e, e.single[k].uid))) ELSE R(0)
              IN RLe(zz(j), RAdd(zz(j + 1), "1e-9"))),
       Must("view-planes-as-seen-now", \A j \in DOMAIN e.single : e.single[j].uid \in Ids(ps) =>
              LET i == Of(e, e.single[j].uid) IN shown(e.single[j], Mat(ps[i].axes), Tup(ps[i].h), off(i))),
       Must("view-marks-what-is-pointed-at", \A j \in DOMAIN e.traces : LET r == e.traces[j] IN
              r.colour = 1 /\ r.dark = (IF \E k \in DOMAIN e.pointed : e.pointed[k] = r.uid THEN 0 ELSE 1) /\ r.told = r.uid),
       Must("view-masks-of-their-own", Cardinality({e.single[j].mask : j \in DOMAIN e.single} \cup {e.group[j].mask : j \in DOMAIN e.group})
              = Len(e.single) + Len(e.group)),
       Must("view-less-certain-more-transparent", \A i, j \in DOMAIN e.single : LET a == e.single[i] b == e.single[j] IN
              (a.uid \in Ids(ps) /\ b.uid \in Ids(ps)) =>
                 FinNum(a.alpha) /\ RLeq3(0, Num(a.alpha), 1)
                 /\ LET wide(r) == LET p == ps[Of(e, r.uid)] IN RDiv(RSqrt(At(p.h, 3)), Radius(Mat(p.axes), Tup(p.h), v))
                    IN RLt(wide(a), wide(b)) => RLe(Num(b.alpha), RAdd(Num(a.alpha), "1e-9"))),
       Must("view-groups-at-their-members", Len(e.group) = Cardinality(grouped) /\ \A i \in grouped :
              \E j \in DOMAIN e.group : LET gg == e.groups[ps[i].group]
                 IN e.group[j].uid = gg.uid /\ shown(e.group[j], Mat(gg.axes), Tup(gg.h), off(i))),
       Must("view-traces", Ids(e.traces) = {ps[i].uid : i \in {k \in DOMAIN ps : ps[k].points = 1}}
              /\ \A j \in DOMAIN e.traces : e.traces[j].uid \in Ids(ps) =>
                   LET i == Of(e, e.traces[j].uid)
                       nn == IF ps[i].group > 0 THEN Row(e.groups[ps[i].group].axes, 3) ELSE Row(ps[i].axes, 3)
                   IN Placed(e.traces[j].transform, v, nn, off(i), sx, sy)) >>)
C22(e) == CASE e.ev = "transform" -> Transform(e) [] e.ev = "hyperbola" -> Hyperbola(e) [] e.ev = "data" -> Data(e)
            [] e.ev = "dips" -> Dips(e) [] e.ev = "trail" -> Trail(e) [] e.ev = "average" -> Average(e)
            [] e.ev = "extrema" -> Extrema(e) [] e.ev = "fixed" -> Fixed(e) [] e.ev = "shot" -> Shot(e)
=============================================================================
