---------------------------- MODULE StrikeDipMC ----------------------------
(* All plane normals on an integer lattice with an exact reading of their    *)
(* attitude: the direction of steepest descent, the horizontal line to its   *)
(* left and the quadrant of strike, in integer arithmetic.  A plane may be   *)
(* presented with its normal up or down and with either sign of its in-plane *)
(* axes; the reading must not depend on the presentation.  Every             *)
(* presentation is emitted.                                                  *)
EXTENDS Integers, Sequences, TLC, Json, CSV, IOUtils
CONSTANT K
VARIABLES phase, nrm, spin, signs

Range == -K .. K
Cross(u, w) == << u[2] * w[3] - u[3] * w[2], u[3] * w[1] - u[1] * w[3], u[1] * w[2] - u[2] * w[1] >>
Dot(u, w) == u[1] * w[1] + u[2] * w[2] + u[3] * w[3]
RECURSIVE Gcd(_, _)
Gcd(a, b) == IF b = 0 THEN a ELSE Gcd(b, a % b)
Abs(a) == IF a < 0 THEN -a ELSE a
Primitive(v) == Gcd(Gcd(Abs(v[1]), Abs(v[2])), Abs(v[3])) = 1

Up(v) == IF v[3] < 0 THEN << -v[1], -v[2], -v[3] >> ELSE v
(* steepest descent within the plane, and the strike line 90 degrees to its  *)
(* left seen from above                                                      *)
Descent(v) == LET u == Up(v) IN << u[1] * u[3], u[2] * u[3], -(u[1] * u[1] + u[2] * u[2]) >>
DipAzimuth(v) == LET u == Up(v) IN << u[1], u[2] >>            \* (east, north)
StrikeAzimuth(v) == LET d == DipAzimuth(v) IN << -d[2], d[1] >>  \* rotated 90 degrees to the left

(* integer in-plane axes, in two attitudes *)
InPlane(v, s) == LET h == IF v[1] = 0 /\ v[2] = 0 THEN <<1, 0, 0>> ELSE << -v[2], v[1], 0 >>
                     d == Cross(v, h)
                 IN IF s = 0 THEN <<h, d>> ELSE <<d, h>>

Init == phase = "normal" /\ nrm = <<0, 0, 0>> /\ spin = 0 /\ signs = <<1, 1, 1>>
PickNormal == /\ phase = "normal"
              /\ nrm' \in {v \in Range \X Range \X Range : v # <<0, 0, 0>> /\ Primitive(v)}
              /\ phase' = "spin" /\ UNCHANGED <<spin, signs>>
PickSpin == phase = "spin" /\ spin' \in {0, 1} /\ phase' = "signs" /\ UNCHANGED <<nrm, signs>>
PickSigns == /\ phase = "signs"
             /\ signs' \in {-1, 1} \X {-1, 1} \X {1}
             /\ phase' = "done" /\ UNCHANGED <<nrm, spin>>
Next == PickNormal \/ PickSpin \/ PickSigns
Spec == Init /\ [][Next]_<<phase, nrm, spin, signs>>

Ready == phase # "normal"
DescentInPlane == Ready => Dot(Descent(nrm), nrm) = 0
DescentGoesDown == Ready => Descent(nrm)[3] <= 0
StrikeHorizontalInPlane ==
  Ready => LET s == StrikeAzimuth(nrm) IN s[1] * nrm[1] + s[2] * nrm[2] = 0
(* right-hand rule: the dip direction is clockwise of the strike (negative   *)
(* cross product seen from above)                                            *)
RightHandRule ==
  Ready => LET s == StrikeAzimuth(nrm) d == DipAzimuth(nrm)
           IN s[1] * d[2] - s[2] * d[1] <= 0 /\ (d # <<0, 0>> => s[1] * d[2] - s[2] * d[1] < 0)
PresentationIrrelevant ==
  (Ready /\ nrm[3] # 0) =>
     LET m == << -nrm[1], -nrm[2], -nrm[3] >>
     IN Descent(m) = Descent(nrm) /\ StrikeAzimuth(m) = StrikeAzimuth(nrm)
AxesOrthogonal ==
  Ready => LET a == InPlane(nrm, spin) IN Dot(a[1], a[2]) = 0 /\ Dot(a[1], nrm) = 0 /\ Dot(a[2], nrm) = 0
Inv == DescentInPlane /\ DescentGoesDown /\ StrikeHorizontalInPlane /\ RightHandRule
       /\ PresentationIrrelevant /\ AxesOrthogonal
Emit == phase = "done" =>
  CSVWrite("%1$s", <<ToJson([n |-> nrm, a1 |-> InPlane(nrm, spin)[1], a2 |-> InPlane(nrm, spin)[2],
                             sg |-> signs])>>, IOEnv.CASES)
=============================================================================
