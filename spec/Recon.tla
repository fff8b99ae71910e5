------------------------------- MODULE Recon -------------------------------
(* A plane reconstructed from strike, dip, rake and full angular errors.  The *)
(* first error belongs to the direction at the rake, the second to the       *)
(* direction within the plane perpendicular to it; error axes are listed with *)
(* the perpendicular one first and the normal last.                          *)
EXTENDS Attitude
HalfTan(err) == RTan(RDiv(RRad(err), 2))
HyperbolicAxes(e1, e2, ne) == << RDiv(ne, HalfTan(e2)), RDiv(ne, HalfTan(e1)), R(ne) >>
=============================================================================
