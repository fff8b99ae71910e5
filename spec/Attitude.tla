------------------------------ MODULE Attitude ------------------------------
(* Planar attitudes: a plane is identified by its upward unit normal.  Strike *)
(* follows the right-hand rule: azimuth clockwise from north (+y) of the      *)
(* horizontal line that has the dip direction 90 degrees clockwise of it.     *)
EXTENDS Linear

StrikeLine(strike) == LET s == RRad(strike) IN << RSin(s), RCos(s), R(0) >>
DipLine(strike, dip) == LET s == RRad(strike) d == RRad(dip)
                        IN << RMul(RCos(s), RCos(d)), RNeg(RMul(RSin(s), RCos(d))), RNeg(RSin(d)) >>
UpNormal(strike, dip) == LET s == RRad(strike) d == RRad(dip)
                         IN << RMul(RCos(s), RSin(d)), RNeg(RMul(RSin(s), RSin(d))), RCos(d) >>
(* the direction within the plane that pitches by rake from the strike line *)
RakeLine(strike, dip, rake) ==
  LET r == RRad(rake) IN Vadd(Vmul(RCos(r), StrikeLine(strike)), Vmul(RSin(r), DipLine(strike, dip)))

Up(n) == IF RLt(n[3], 0) THEN Vneg(n) ELSE n

(* strike and dip describe the plane with normal n; both readings of a        *)
(* vertical plane are accepted                                                *)
Describes(strike, dip, n, tol) ==
  LET u == UpNormal(strike, dip)
  IN \/ Near(u, Up(n), tol)
     \/ RLe(RAbs(n[3]), tol) /\ NearUpToSign(u, n, tol)
InRange(strike, dip) == RLeq3(0, strike, 360) /\ RLeq3(0, dip, 90)
=============================================================================
