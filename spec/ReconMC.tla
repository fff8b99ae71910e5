------------------------------ MODULE ReconMC ------------------------------
(* Planes stated by strike, dip, rake and two angular errors.  The identities *)
(* that make the statement a plane with a frame of error axes are checked on  *)
(* a grid that holds every cardinal and boundary case; every grid point is    *)
(* emitted.                                                                   *)
EXTENDS Recon, TLC, Json, CSV, IOUtils
CONSTANTS Strikes, Dips, Rakes, Errors, Tick
VARIABLES phase, sdr, err

Init == phase = "strike" /\ sdr = <<0, 0, 0>> /\ err = <<0, 0, 0>>
Strike == phase = "strike" /\ \E s \in Strikes : sdr' = <<s, 0, 0>> /\ phase' = "dip" /\ UNCHANGED err
Dip == phase = "dip" /\ \E d \in Dips : sdr' = <<sdr[1], d, 0>> /\ phase' = "rake" /\ UNCHANGED err
Rake == phase = "rake" /\ \E r \in Rakes : sdr' = <<sdr[1], sdr[2], r>> /\ phase' = "errors" /\ UNCHANGED err
Errs == /\ phase = "errors"
        /\ \E a \in Errors, b \in Errors, k \in {1, 2} :
             /\ (sdr[1] + 2 * sdr[2] + 3 * sdr[3] + a + 5 * b + 7 * k) % Tick = 0
             /\ err' = <<a, b, k>>
        /\ phase' = "done" /\ UNCHANGED sdr
Next == Strike \/ Dip \/ Rake \/ Errs
Spec == Init /\ [][Next]_<<phase, sdr, err>>

Tol == "1e-12"
n == UpNormal(sdr[1], sdr[2])
r == RakeLine(sdr[1], sdr[2], sdr[3])
Ready == phase \in {"errors", "done"}
NormalUp == Ready => RLe(RNeg(Tol), n[3]) /\ RNear(Norm(n), 1, Tol)
RakeInPlane == Ready => RNear(Dot(n, r), 0, Tol) /\ RNear(Norm(r), 1, Tol)
FrameComplete == Ready => Orthonormal(<<Cross(n, r), r, n>>, Tol) /\ RNear(Det3(<<r, Cross(n, r), n>>), 1, Tol)
StrikeDipDescribe == Ready => Describes(sdr[1], sdr[2], n, Tol)
HorizontalStrikeLine == Ready => RNear(Dot(StrikeLine(sdr[1]), n), 0, Tol)
DipLineDescends == Ready => RNear(Dot(DipLine(sdr[1], sdr[2]), n), 0, Tol) /\ RLe(DipLine(sdr[1], sdr[2])[3], Tol)
(* the angular errors are recovered from the error axes *)
AnglesBack == phase = "done" =>
  LET h == HyperbolicAxes(err[1], err[2], err[3])
  IN /\ RNear(RDeg(RMul(2, RAtan2(h[3], h[2]))), err[1], "1e-9")
     /\ RNear(RDeg(RMul(2, RAtan2(h[3], h[1]))), err[2], "1e-9")
Inv == NormalUp /\ RakeInPlane /\ FrameComplete /\ StrikeDipDescribe /\ HorizontalStrikeLine
       /\ DipLineDescends /\ AnglesBack
Emit == phase = "done" => CSVWrite("%1$s", <<ToJson([sdr |-> sdr, err |-> err])>>, IOEnv.CASES)
=============================================================================
