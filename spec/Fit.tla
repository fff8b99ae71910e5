-------------------------------- MODULE Fit --------------------------------
(* A planar fit as a total-least-squares problem.  The abstract state of a   *)
(* fit is its point cloud alone; everything the library reports about the    *)
(* fit is a function of the cloud, up to the sign of each principal axis.    *)
EXTENDS Linear
LOCAL INSTANCE TLC

N(cloud) == cloud.s[1]
Cols(cloud) == TLCEval([j \in 1 .. 3 |-> ColV(cloud, j)])
Centroid(cloud) == TLCEval([j \in 1 .. 3 |-> RDiv(VSum(ColV(cloud, j)), N(cloud))])
(* centred columns *)
Centred(cloud) == LET c == Centroid(cloud)
                  IN TLCEval([j \in 1 .. 3 |-> VShift(ColV(cloud, j), c[j])])
Scatter(cc) == TLCEval([i \in 1 .. 3 |-> [j \in 1 .. 3 |-> VDot(cc[i], cc[j])]])

Magnitude(cloud) == VMaxAbs(cloud.v)
Extent(cc) == RMax(VMaxAbs(cc[1]), RMax(VMaxAbs(cc[2]), VMaxAbs(cc[3])))

(* projection of centred columns on a direction *)
Along(cc, a) == VAdd(VAdd(VScale(cc[1], a[1]), VScale(cc[2], a[2])), VScale(cc[3], a[3]))

(* Absolute tolerances for positions, in the units of the cloud: rel is the  *)
(* precision expected of the element type.                                   *)
PosTol(cloud, cc, rel) == RAdd(RMul(rel, Extent(cc)), RMul(RMul(rel, "1e-4"), Magnitude(cloud)))
(* and for second moments                                                    *)
MomTol(cloud, cc, rel) ==
  RMul(RMul(N(cloud), RAdd(Extent(cc), "1e-300")), PosTol(cloud, cc, rel))

(* Directions among which no better plane may be found: a spectral theorem   *)
(* instance checked directly.                                                *)
Probe == LET I == {-1, 0, 1} IN {d \in I \X I \X I : d # <<0, 0, 0>>}
=============================================================================
