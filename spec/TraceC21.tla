------------------------------ MODULE TraceC21 ------------------------------
(* C21: the curves and areas of the viewer's stereonet.                      *)
EXTENDS StatelessTrace, Cone

Read(lay, lon, lat) ==
  CASE lay = "traditional" -> Traditional(lon, lat)
    [] lay = "natural" -> Natural(lon, lat)
    [] lay = "traditional-degrees" -> Traditional(RRad(lon), RRad(lat))
    [] lay = "natural-degrees" -> Natural(RRad(lon), RRad(lat))
Curve(out) == out.s # <<>> /\ Len(out.s) = 2 /\ out.s[2] = 2 /\ out.s[1] > 3 /\ Finite(out)
Points(A, lay, out) == TLCEval([k \in 1 .. out.s[1] |-> InFrame(A, Read(lay, El(out, k, 1), El(out, k, 2)))])
Gap(n) == RAdd(RMul("1.01", RDeg(RAcos(RMax(-1, RSub(1, RDiv(4, n)))))), "1e-3")
Tol == "1e-6"

(* an exactly vertical plane has no upward normal: either will do            *)
Ups(A) == IF REq(A[3][3], 0) THEN {1, -1} ELSE {UpSign(A)}
OnSheet(A, h, sheet, ps) ==
  LET s == Roots(h)
  IN \E up \in Ups(A) : \A k \in DOMAIN ps : Near(ps[k], ConeDir(s, Offset(sheet) * up, ConeParam(s, ps[k])), Tol)
Around(h, ps, n) == LET s == Roots(h) IN OnceAround(TLCEval([k \in DOMAIN ps |-> ConeParam(s, ps[k])]), Gap(n))
(* nearly closed curves and nearly circular parameters are all that float     *)
(* longitudes and latitudes allow                                             *)
Steep(h) == RLt(RMul("1e4", RMin(h[1], h[2])), RMax(h[1], h[2]))
Sheet(e) ==
  LET A == Mat(e.axes)
      h == Tup(e.h)
      ok == Curve(e.out)
      ps == Points(A, e.lay, e.out)
  IN << Must("curve-shape", ok) >> \o
     When(ok, << Must("on-the-error-cone-" \o e.sheet, OnSheet(A, h, e.sheet, ps)),
                 Must("curve-closed", Near(ps[1], ps[Len(ps)], Tol)),
                 Must("curve-length", Len(ps) >= e.n),
                 Clause("once-around", ~Steep(h), Around(h, ps, e.n)) >>)
OnPole(h, level, sg, ps) ==
  LET s == Roots(h) IN \A k \in DOMAIN ps : Near(ps[k], DualDir(s, level, sg, DualParam(s, ps[k], sg)), Tol)
(* the parameter of the dual curve is not that of the ellipse it was drawn    *)
(* with; its steps are bounded for moderate axes only                         *)
Wide(h) == RLe(RMul("1e-4", RMax(h[1], h[2])), h[3])
Round(h) == RLe(RMax(h[1], h[2]), RMul(4, RMin(h[1], h[2])))
Pole(e) ==
  LET A == Mat(e.axes)
      h == Tup(e.h)
      L == Num(e.level)
      ok == Curve(e.out)
      ps == Points(A, e.lay, e.out)
  IN << Must("ellipse-shape", ok) >> \o
     When(ok, << Must("on-the-cone-of-poles", IF RLt(0, L) THEN OnPole(h, L, e.sg, ps)
                        ELSE \A k \in DOMAIN ps : Near(ps[k], <<R(0), R(0), R(e.sg)>>, Tol)),
                 Must("ellipse-closed", Near(ps[1], ps[Len(ps)], Tol)),
                 Must("ellipse-length", Len(ps) >= e.n),
                 Clause("ellipse-once-around", RLe("0.1", L) /\ Wide(h) /\ Round(h),
                        LET s == Roots(h) IN OnceAround(TLCEval([k \in DOMAIN ps |-> DualParam(s, ps[k], e.sg)]), RMul(4, Gap(e.n)))) >>)
(* a surface: two rings, the lower and the upper curve, the nominal plane     *)
(* inside and both poles outside; probes are judged where they are clear of   *)
(* the outline                                                                *)
Clear(r) == RLt(r, "0.85") \/ RLt("1.2", r)
Probed(ratio, flag) == (flag = 1) = RLt(ratio, 1)
Surface(e) ==
  LET A == Mat(e.axes)
      h == Tup(e.h)
      ok == Len(e.rings) = 2 /\ \A i \in DOMAIN e.rings : Curve(e.rings[i])
      ps(i) == Points(A, e.lay, e.rings[i])
      c(k) == InFrame(A, Read(e.lay, El(e.probes, k, 1), El(e.probes, k, 2)))
  IN << Must("surface-is-polygon-of-two-rings", e.geom = "Polygon" /\ ok) >> \o
     When(ok, << Must("surface-between-upper-and-lower",
                      \E i \in {1, 2} : OnSheet(A, h, "lower", ps(i)) /\ OnSheet(A, h, "upper", ps(3 - i))),
                 Must("surface-rings-closed", \A i \in {1, 2} : Near(ps(i)[1], ps(i)[Len(ps(i))], Tol)) >>) \o
     << Must("surface-holds-the-error-band", \A k \in DOMAIN e.inside :
              LET r == BandRatio(h, c(k)) IN Clear(r) => Probed(r, e.inside[k])) >>
Line(e) == << Must("nominal-line", e.geom = "LineString" /\ Len(e.rings) = 1 /\ e.rings[1] = e.nominal) >>
(* error ellipses as areas: one around the upward normal, one opposite        *)
(* a plane stated by strike, dip, rake and full angular errors, the largest   *)
(* first: it opens along the rake                                             *)
StatedFrame(s) == LET nn == UpNormal(s[1], s[2])
                      rr == RakeLine(s[1], s[2], s[3]) IN << Cross(nn, rr), rr, nn >>
Opening(a) == RDiv(1, Sq(RTan(RDiv(RRad(a), 2))))
AxesFor(e) == IF e.stated = 1 THEN StatedFrame(Tup(e.sdr)) ELSE Mat(e.axes)
ErrorsFor(e) == IF e.stated = 1 THEN << Opening(At(e.err, 2)), Opening(At(e.err, 1)), R(1) >> ELSE Tup(e.h)
Areas(e) ==
  LET A == TLCEval(AxesFor(e))
      h == TLCEval(ErrorsFor(e))
      L == Num(e.level)
      ok == Len(e.rings) = 2 /\ \A i \in DOMAIN e.rings : Curve(e.rings[i])
      ps(i) == Points(A, e.lay, e.rings[i])
      c(k) == InFrame(A, Read(e.lay, El(e.probes, k, 1), El(e.probes, k, 2)))
  IN << Must("ellipses-are-two-polygons", e.geom = "MultiPolygon" /\ ok),
        Must("ellipse-of-this-level", IF FinNum(e.got) THEN REq(Num(e.got), L) ELSE FALSE),
        Must("data-unchanged", e.same = 1) >> \o
     When(ok, << Must("ellipses-around-both-poles",
                   \E up \in Ups(A) : OnPole(h, L, up, ps(1)) /\ OnPole(h, L, -up, ps(2))) >>) \o
     << Must("ellipses-hold-the-poles", \A k \in DOMAIN e.inside :
              LET r == PoleRatio(h, L, c(k)) IN Clear(r) => Probed(r, e.inside[k])) >>
Split(e) ==
  LET ok == FinVec(e.sv, 3) /\ FinMat(e.out, 3, 3)
  IN << Must("deconvolve-shape", ok) >> \o
     When(ok, << Must("deconvolve-lengths-and-unit-columns", \A j \in 1 .. 3 :
           LET col == TLCEval([i \in 1 .. 3 |-> El(e.in, i, j)])
               got == TLCEval([i \in 1 .. 3 |-> El(e.out, i, j)])
           IN RNear(Norm(got), 1, "1e-12") /\ RNear(At(e.sv, j), Norm(col), RMul("1e-12", Norm(col)))
              /\ Near(Vmul(At(e.sv, j), got), col, RMul("1e-12", Norm(col)))) >>)
Sph(e) == << Must("direction-of-vector", FinVec(e.out, 2) /\ Near(Read(e.lay, At(e.out, 1), At(e.out, 2)), Unit(Tup(e.in)), "2e-8")) >>
C21(e) == CASE e.ev = "sheet" -> Sheet(e) [] e.ev = "pole" -> Pole(e) [] e.ev = "surface" -> Surface(e)
            [] e.ev = "line" -> Line(e) [] e.ev = "areas" -> Areas(e) [] e.ev = "split" -> Split(e) [] e.ev = "sph" -> Sph(e)
            [] e.ev = "keys" -> << Must("all-sheets", e.got = <<"lower", "nominal", "upper">>) >>
            [] e.ev = "many" -> << Must("one-ellipse-per-level", e.got = e.want) >>
=============================================================================
