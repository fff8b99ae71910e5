------------------------------ MODULE TraceC19 ------------------------------
(* C19: coordinates, rotations and vector helpers.                           *)
EXTENDS StatelessTrace

(* colatitude and azimuth                                                     *)
Sph(r, th, ph) == << RMul(r, RMul(RSin(th), RCos(ph))), RMul(r, RMul(RSin(th), RSin(ph))), RMul(r, RCos(th)) >>
LonLat(lon, lat) == << RMul(RCos(lat), RCos(lon)), RMul(RCos(lat), RSin(lon)), RSin(lat) >>
ColOf(x, j) == [i \in 1 .. x.s[1] |-> El(x, i, j)]
(* x: 3 x n points, out: n x 3 of r, theta, phi                               *)
Spherical(e) ==
  LET n == e.x.s[2]
      ok == FinMat(e.out, n, 3)
  IN << Must("spherical-shape", ok) >> \o
     When(ok, <<
       Must("spherical", \A k \in 1 .. n : LET p == ColOf(e.x, k) IN
            Near(Sph(El(e.out, k, 1), El(e.out, k, 2), El(e.out, k, 3)), p, RMul("2e-8", Norm(p)))),
       Must("spherical-ranges", \A k \in 1 .. n : RLt(0, El(e.out, k, 1)) /\ RLeq3(0, El(e.out, k, 2), Pi) /\ RLe(RAbs(El(e.out, k, 3)), Pi)) >>)
(* x: n x 3 of r, theta, phi; out: 3 x n                                      *)
Cartesian(e) ==
  LET n == e.x.s[1]
      ok == FinMat(e.out, 3, n)
  IN << Must("cartesian-shape", ok) >> \o
     When(ok, << Must("cartesian", \A k \in 1 .. n :
            Near(ColOf(e.out, k), Sph(El(e.x, k, 1), El(e.x, k, 2), El(e.x, k, 3)), RMul("1e-9", RAdd("1e-300", RAbs(El(e.x, k, 1)))))) >>)
(* lon, lat: n; out: 3 x n directions (or 2 x n angles)                       *)
Direction(e) ==
  LET n == VLen(e.lon.v)
      q(k) == LonLat(At(e.lon, k), At(e.lat, k))
      dir == e.f \in {"cartesian", "sph2cart"}
      ok == FinMat(e.out, IF dir THEN 3 ELSE 2, n)
      got(k) == IF dir THEN ColOf(e.out, k) ELSE LonLat(El(e.out, 1, k), El(e.out, 2, k))
      want(k) == CASE e.f = "cartesian" -> q(k)
                   [] e.f = "sph2cart" -> << RNeg(q(k)[2]), RNeg(q(k)[3]), q(k)[1] >>
                   [] e.f = "from_stereonet" -> << q(k)[2], q(k)[3], RNeg(q(k)[1]) >>
                   [] e.f = "to_stereonet" -> << RNeg(q(k)[3]), q(k)[1], q(k)[2] >>
                   [] e.f = "roundtrip" -> q(k)
  IN << Must(e.f \o "-shape", ok) >> \o
     When(ok, << Must(e.f, \A k \in 1 .. n : Near(got(k), want(k), "1e-7")) >>)
Rotation(e) ==
  LET v == Unit(Tup(e.v))
      w == Unit(Tup(e.w))
      M == Mat(e.out)
      ok == FinMat(e.out, 3, 3)
      tr == RAdd(M[1][1], RAdd(M[2][2], M[3][3]))
  IN << Must("rotation-shape", ok) >> \o
     When(ok, << Must("rotation-orthonormal", Orthonormal(M, "1e-7") /\ RLt(0, Det3(M))),
                 Must("rotation-maps-v-to-w", Near(MV(M, v), w, "1e-7")),
                 Must("rotation-least", RNear(tr, RAdd(1, RMul(2, Dot(v, w))), "1e-6")) >>)
(* the angle from its sine and cosine                                         *)
Turned(v, w) == RAtan2(IF Len(v) = 2 THEN RAbs(RSub(RMul(v[1], w[2]), RMul(v[2], w[1]))) ELSE Norm(Cross(v, w)), Dot(v, w))
Angle(e) ==
  LET c == RDiv(Dot(Tup(e.v), Tup(e.w)), RMul(Norm(Tup(e.v)), Norm(Tup(e.w))))
      ok == FinNum(e.out) /\ FinNum(e.cos)
  IN << Must("angle-shape", ok) >> \o
     When(ok, << Must("angle", RNear(RCos(Num(e.out)), c, "1e-9") /\ RNear(Num(e.out), Turned(Unit(Tup(e.v)), Unit(Tup(e.w))), "1e-7")), Must("angle-range", RLeq3(0, Num(e.out), Pi)),
                 Must("cosine", RNear(Num(e.cos), c, "1e-9") /\ RLe(RAbs(Num(e.cos)), 1)) >>)
Perp(e) ==
  LET n == VLen(e.v.v)
      ok == FinVec(e.out, n)
  IN << Must("perpendicular-shape", ok) >> \o
     When(ok, << Must("perpendicular", LET p == Tup(e.out) IN
        RLt(0, Norm(p)) /\ RNear(Dot(p, Tup(e.v)), 0, RMul("1e-12", RMul(Norm(p), Norm(Tup(e.v)))))) >>)
Unitary(e) == LET n == VLen(e.v.v) IN
  << Must("unit-vector", FinVec(e.out, n)) >> \o
  When(FinVec(e.out, n), << Must("unit-length", RNear(Norm(Tup(e.out)), 1, "1e-12")),
       Must("unit-direction", Near(Vmul(Norm(Tup(e.v)), Tup(e.out)), Tup(e.v), RMul("1e-12", Norm(Tup(e.v))))) >>)
Augment(e) == LET n == VLen(e.v.v) IN
  << Must("augmented", FinVec(e.out, n + 1)) >> \o
  When(FinVec(e.out, n + 1), << Must("trailing-one", REq(At(e.out, n + 1), 1) /\ \A i \in 1 .. n : REq(At(e.out, i), At(e.v, i))) >>)
Tensor(e) == LET m == e.m.s IN
  << Must("augmented-tensor-shape", FinMat(e.out, e.n, e.n)) >> \o
  When(FinMat(e.out, e.n, e.n), << Must("spliced-into-identity", \A i \in 1 .. e.n : \A j \in 1 .. e.n :
     REq(El(e.out, i, j), IF i <= m[1] /\ j <= m[2] THEN El(e.m, i, j) ELSE IF i = j THEN 1 ELSE 0)) >>)
PlaneEv(e) ==
  LET n == VLen(e.n.v)
      nv == Tup(e.n)
      len == Norm(nv)
      ok == FinVec(e.hess, n + 1) /\ FinVec(e.normal, n) /\ FinVec(e.off, n)
  IN << Must("plane-shape", ok) >> \o
     When(ok, << Must("hessian-normal-form", Near(Vmul(len, Tup(e.hess)), Append(nv, Num(e.d)), RMul("1e-11", RAdd(len, RAbs(Num(e.d)))))),
                 Must("plane-normal", Near(Vmul(len, Tup(e.normal)), nv, RMul("1e-11", len))),
                 Must("plane-offset", Near(Vmul(Sq(len), Tup(e.off)), Vmul(RNeg(Num(e.d)), nv), RMul("1e-11", RMul(len, RAbs(Num(e.d)))))) >>)
Turn(e) ==
  LET c == RCos(Num(e.a))
      s == RSin(Num(e.a))
      two == << <<c, RNeg(s)>>, <<s, c>> >>
      three == << <<c, RNeg(s), R(0)>>, <<s, c, R(0)>>, <<R(0), R(0), R(1)>> >>
  IN << Must("turn-shape", FinMat(e.out, e.dim, e.dim)) >> \o
     When(FinMat(e.out, e.dim, e.dim), << Must("turn", MNear(Mat(e.out), IF e.dim = 2 THEN two ELSE three, "1e-12")) >>)
FitAngle(e) == << Must("fit-angle", FinNum(e.out) /\ RNear(RCos(RRad(Num(e.out))), Dot(Unit(Tup(e.v)), Unit(Tup(e.w))), "1e-9")
                       /\ RNear(RRad(Num(e.out)), Turned(Tup(e.v), Tup(e.w)), "1e-7")),
                  Must("fit-angle-range", FinNum(e.out) /\ RLeq3(0, Num(e.out), 180)) >>
Centred(e) ==
  LET n == e.x.s[1]
      ok == FinMat(e.out, n, e.x.s[2])
      mean(j) == RDiv(VSum(ColV(e.x, j)), n)
  IN << Must("centred-shape", ok), Must("centred-input-unchanged", e.same = 1) >> \o
     When(ok, << Must("centred", \A j \in 1 .. e.x.s[2] : VNear(ColV(e.out, j), VShift(ColV(e.x, j), mean(j)), RMul("1e-13", RAdd("1e-300", VMaxAbs(ColV(e.x, j)))))) >>)
(* matrix helpers                                                             *)
Algebra(e) ==
  << Must(e.f \o "-shape", IF e.f = "normalize" THEN FinVec(e.out, VLen(e.a.v)) ELSE FinMat(e.out, e.want.s[1], e.want.s[2])) >> \o
  When(Finite(e.out) /\ e.out.s = e.want.s, << Must(e.f,
     CASE e.f = "rotate_tensor" -> MNear(Mat(e.out), MM(Mat(e.b), MM(Mat(e.a), Tr(Mat(e.b)))), "1e-9")
       [] e.f = "compose_affine" -> MNear(Mat(e.out), MM(Mat(e.b), Mat(e.a)), "1e-9")
       [] e.f = "axis_transform" -> MNear(Mat(e.out), Mat(e.a), "1e-9")
       [] e.f = "views" -> MNear(Mat(e.out), Mat(e.want), 0)) >>)
C19(e) == CASE e.ev = "spherical" -> Spherical(e) [] e.ev = "cartesian" -> Cartesian(e) [] e.ev = "direction" -> Direction(e)
            [] e.ev = "rotation" -> Rotation(e) [] e.ev = "angle" -> Angle(e) [] e.ev = "perp" -> Perp(e)
            [] e.ev = "unit" -> Unitary(e) [] e.ev = "augment" -> Augment(e) [] e.ev = "tensor" -> Tensor(e)
            [] e.ev = "plane" -> PlaneEv(e) [] e.ev = "turn" -> Turn(e) [] e.ev = "fitangle" -> FitAngle(e)
            [] e.ev = "centred" -> Centred(e) [] e.ev = "algebra" -> Algebra(e)
=============================================================================
