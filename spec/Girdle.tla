------------------------------- MODULE Girdle -------------------------------
(* Error surfaces of a plane on the sphere.  A plane has principal axes A     *)
(* (rows) and axis-aligned error axes d.  Parameter u runs once around.       *)
EXTENDS Attitude
LOCAL INSTANCE TLC

Param(k, n) == RDiv(RMul(RMul(2, Pi), k - 1), n - 1)
(* the direction of the sheet at u: within the plane for the nominal sheet,   *)
(* tilted by 2 level d3 along the upward normal, below the plane for "upper"  *)
(* (its pole lies above) and above it for "lower"                             *)
Offset(sheet) == CASE sheet = "upper" -> -1 [] sheet = "lower" -> 1 [] OTHER -> 0
UpSign(A) == IF RLt(0, A[3][3]) THEN 1 ELSE -1
SheetPoint(A, d, sheet, level, u) ==
  Unit(Vadd(Vadd(Vmul(RMul(RCos(u), d[1]), A[1]), Vmul(RMul(RSin(u), d[2]), A[2])),
            Vmul(RMul(RMul(2 * Offset(sheet) * UpSign(A), level), d[3]), A[3])))
(* the pole at u: the upward normal, tilted away from the direction u by      *)
(* twice the normal error (times the level) over the in-plane length          *)
PolePoint(A, d, level, u) ==
  LET s == UpSign(A)
      f == RSqrt(RAdd(Sq(RMul(RCos(u), d[1])), Sq(RMul(RSin(u), d[2]))))
      t == RMul(RMul(-2 * s, level), d[3])
  IN Unit(Vadd(Vadd(Vmul(RMul(t, RCos(u)), A[1]), Vmul(RMul(t, RSin(u)), A[2])), Vmul(RMul(s, f), A[3])))

(* how a longitude and latitude (radians) are read                            *)
LonLat(lon, lat) == << RMul(RCos(lat), RCos(lon)), RMul(RCos(lat), RSin(lon)), RSin(lat) >>
(* north at the pole of the diagram                                           *)
Traditional(lon, lat) == LET q == LonLat(lon, lat) IN << q[2], q[3], q[1] >>
(* vertical at the pole of the diagram, strike around the equator             *)
Natural(lon, lat) == LET q == LonLat(lon, lat) IN << q[2], RNeg(q[1]), q[3] >>
(* poles are laid out as the planes they belong to, seen from above           *)
PoleTraditional(lon, lat) == LET q == LonLat(lon, lat) IN << q[2], RNeg(q[3]), q[1] >>
(* azimuth and angle from the vertical (degrees) on a polar plot              *)
PolarPlot(theta, r) == LET p == RRad(r) IN << RMul(RSin(theta), RSin(p)), RMul(RCos(theta), RSin(p)), RCos(p) >>
=============================================================================
