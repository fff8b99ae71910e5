------------------------------ MODULE RegressMC -----------------------------
(* Least squares over small integer clouds in exact arithmetic, and the order *)
(* in which a regression is asked.  A solution (scaled by the determinant of  *)
(* the normal matrix, Cramer) satisfies the normal equations, and no other    *)
(* integer plane has a smaller sum of squares.                                *)
EXTENDS Integers, Sequences, TLC, Json, CSV, IOUtils
CONSTANTS K, NPts, MaxQ
VARIABLES pts, asked

RECURSIVE Sm(_, _)
Sm(f, n) == IF n = 0 THEN 0 ELSE f[n] + Sm(f, n - 1)
S(p, i, j) == Sm([k \in DOMAIN p |-> (IF i = 4 THEN 1 ELSE p[k][i]) * (IF j = 4 THEN 1 ELSE p[k][j])], Len(p))
Det(a, b, c, d, e, f, g, h, i) == a * (e * i - f * h) - b * (d * i - f * g) + c * (d * h - e * g)
D(p) == Det(S(p,1,1), S(p,1,2), S(p,1,4), S(p,1,2), S(p,2,2), S(p,2,4), S(p,1,4), S(p,2,4), Len(p))
A(p) == Det(S(p,1,3), S(p,1,2), S(p,1,4), S(p,2,3), S(p,2,2), S(p,2,4), S(p,3,4), S(p,2,4), Len(p))
B(p) == Det(S(p,1,1), S(p,1,3), S(p,1,4), S(p,1,2), S(p,2,3), S(p,2,4), S(p,1,4), S(p,3,4), Len(p))
C(p) == Det(S(p,1,1), S(p,1,2), S(p,1,3), S(p,1,2), S(p,2,2), S(p,2,3), S(p,1,4), S(p,2,4), S(p,3,4))
(* residuals scaled by D *)
Rs(p) == LET d == TLCEval(D(p))
             a == TLCEval(A(p))
             b == TLCEval(B(p))
             c == TLCEval(C(p))
         IN TLCEval([k \in DOMAIN p |-> d * p[k][3] - a * p[k][1] - b * p[k][2] - c])
Orthogonal(p) == LET r == Rs(p) IN
  /\ Sm(r, Len(p)) = 0 /\ \A i \in 1 .. 2 : Sm([k \in DOMAIN p |-> r[k] * p[k][i]], Len(p)) = 0
Sse(p, a, b, c) == Sm([k \in DOMAIN p |-> (p[k][3] - a * p[k][1] - b * p[k][2] - c) * (p[k][3] - a * p[k][1] - b * p[k][2] - c)], Len(p))
Best(p) == LET r == Rs(p)
               q == TLCEval(Sm([k \in DOMAIN p |-> r[k] * r[k]], Len(p)))
               dd == TLCEval(D(p) * D(p)) IN
  \A a \in -1 .. 1 : \A b \in -1 .. 1 : \A c \in -1 .. 1 : q <= dd * Sse(p, a, b, c)

Queries == {"coefficients", "predictions", "residuals", "covariance_matrix", "standard_errors"}
Grid == {<<x, y, z>> : x \in 0 .. K, y \in 0 .. K, z \in 0 .. K}
Fixed == << <<0, 0, 0>>, <<1, 0, 1>>, <<0, 1, 0>> >>
Init == pts = Fixed /\ asked = <<>>
AddPt == /\ asked = <<>> /\ Len(pts) < NPts /\ \E g \in Grid : pts' = Append(pts, g) /\ UNCHANGED asked
Ask == /\ Len(pts) \in {3, 4} /\ Len(asked) < MaxQ /\ (Len(pts) = 4 => pts[4] = <<1, 1, 0>>)
       /\ \E q \in Queries : asked' = Append(asked, q) /\ UNCHANGED pts
Next == AddPt \/ Ask
Spec == Init /\ [][Next]_<<pts, asked>>
Inv == asked = <<>> => D(pts) > 0 /\ Orthogonal(pts) /\ Best(pts)
Emit == (asked = <<>> \/ Len(asked) = MaxQ) => CSVWrite("%1$s", <<ToJson([pts |-> pts, asked |-> asked])>>, IOEnv.CASES)
=============================================================================
