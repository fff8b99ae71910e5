------------------------------- MODULE DemMC --------------------------------
(* Reading elevations out of a raster through the smallest window that is     *)
(* enough.                                                                    *)
(*  trim: rows and columns without a selected pixel are cut from the border   *)
(*        of a raster, in any order.  Whatever the order, the end is the      *)
(*        minimum bounding rectangle, and no selected pixel is ever lost.     *)
(*  line: two points, in Q-ths of a pixel.  The window around them holds every*)
(*        pixel that enters the bilinear interpolation at either, so the      *)
(*        pixels and weights found inside the window are those of the raster. *)
EXTENDS Integers, FiniteSets, TLC, Json, CSV, IOUtils
CONSTANTS H, W, Q
VARIABLES mode, mask, rect, pts
vars == <<mode, mask, rect, pts>>

Cells == (1 .. H) \X (1 .. W)
Full == [t |-> 1, b |-> H, w |-> 1, e |-> W]
In(r, c) == r.t <= c[1] /\ c[1] <= r.b /\ r.w <= c[2] /\ c[2] <= r.e
None == [x |-> <<0, 0>>, y |-> <<0, 0>>]
Init == \/ mode = "trim" /\ mask \in SUBSET Cells /\ rect = Full /\ pts = None
        \/ /\ mode = "line" /\ mask = {} /\ rect = Full
           /\ pts \in [x : (0 .. W * Q) \X (0 .. W * Q), y : (0 .. H * Q) \X (0 .. H * Q)]
Rows == {c[1] : c \in mask}
Cols == {c[2] : c \in mask}
Trim == /\ mode = "trim" /\ mask # {} /\ UNCHANGED <<mode, mask, pts>>
        /\ \/ rect.t \notin Rows /\ rect' = [rect EXCEPT !.t = @ + 1]
           \/ rect.b \notin Rows /\ rect' = [rect EXCEPT !.b = @ - 1]
           \/ rect.w \notin Cols /\ rect' = [rect EXCEPT !.w = @ + 1]
           \/ rect.e \notin Cols /\ rect' = [rect EXCEPT !.e = @ - 1]
Next == Trim
Spec == Init /\ [][Next]_vars

Least(S) == CHOOSE a \in S : \A b \in S : a <= b
Most(S) == CHOOSE a \in S : \A b \in S : a >= b
Bound == [t |-> Least(Rows), b |-> Most(Rows), w |-> Least(Cols), e |-> Most(Cols)]
Done == ~ENABLED Trim
NothingLost == mode = "trim" => \A c \in mask : In(rect, c)
Minimal == (mode = "trim" /\ mask # {} /\ Done) => rect = Bound

(* bilinear interpolation along one axis of n pixels, at u in units of half   *)
(* of 1/Q pixel counted from the outer edge of the first pixel                *)
Clamp(a, lo, hi) == IF a < lo THEN lo ELSE IF a > hi THEN hi ELSE a
D == 2 * Q                                                   \* units per pixel
Weights(u, n) == LET a == Clamp(2 * u - Q, 0, D * (n - 1))
                     i == a \div D
                     f == a % D
                 IN {<<i, D - f>>} \cup (IF f > 0 THEN {<<i + 1, f>>} ELSE {})
Lo(p) == LET m == Least({p[1], p[2]}) IN Clamp((2 * m - Q) \div D, 0, 2 * m)
Hi(p, n) == LET m == Most({p[1], p[2]}) IN Least({n, (2 * m + Q + D - 1) \div D})
InWindow(u, p, n) == LET lo == Lo(p) IN {<<c[1] + lo, c[2]>> : c \in Weights(u - lo * Q, Hi(p, n) - lo)}
WindowEnough == mode = "line" => \A k \in 1 .. 2 :
  /\ InWindow(pts.x[k], pts.x, W) = Weights(pts.x[k], W)
  /\ InWindow(pts.y[k], pts.y, H) = Weights(pts.y[k], H)
WeightsSum == mode = "line" => \A k \in 1 .. 2 : LET w == Weights(pts.x[k], W) IN
  Cardinality(w) <= 2 /\ \A c \in w : c[1] >= 0 /\ c[1] < W /\ c[2] > 0

Sel == [i \in 1 .. H * W |-> IF <<((i - 1) \div W) + 1, ((i - 1) % W) + 1>> \in mask THEN 1 ELSE 0]
Emit == rect # Full \/ CSVWrite("%1$s", <<ToJson([mode |-> mode, h |-> H, w |-> W, q |-> Q, mask |-> Sel, pts |-> pts])>>, IOEnv.CASES)
=============================================================================
