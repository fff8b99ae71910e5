------------------------------- MODULE RotMC --------------------------------
(* The least rotation carrying one direction onto another, exactly.  For      *)
(* integer vectors v, w of equal squared length s with c = v.w > -s, the      *)
(* matrix s(s+c) I + (s+c) K + K^2 (K = cross product with v x w) is a        *)
(* rotation scaled by s(s+c) that maps v to w.  All pairs of directions in a  *)
(* cube are explored, and emitted with every octant and axis.                 *)
EXTENDS Integers, Sequences, TLC, Json, CSV, IOUtils
CONSTANTS K
VARIABLES v, w
Cube == {<<a, b, c>> : a \in -K .. K, b \in -K .. K, c \in -K .. K} \ {<<0, 0, 0>>}
Dot(a, b) == a[1] * b[1] + a[2] * b[2] + a[3] * b[3]
Cross(a, b) == <<a[2] * b[3] - a[3] * b[2], a[3] * b[1] - a[1] * b[3], a[1] * b[2] - a[2] * b[1]>>
Skew(x) == << <<0, -x[3], x[2]>>, <<x[3], 0, -x[1]>>, <<-x[2], x[1], 0>> >>
MM(A, B) == TLCEval([i \in 1 .. 3 |-> [j \in 1 .. 3 |-> A[i][1] * B[1][j] + A[i][2] * B[2][j] + A[i][3] * B[3][j]]])
MV(A, u) == [i \in 1 .. 3 |-> Dot(A[i], u)]
Rot(a, b) == LET s == Dot(a, a)
                 c == Dot(a, b)
                 X == Skew(Cross(a, b))
                 XX == MM(X, X)
             IN TLCEval([i \in 1 .. 3 |-> [j \in 1 .. 3 |-> (IF i = j THEN s * (s + c) ELSE 0) + (s + c) * X[i][j] + XX[i][j]]])
Init == v \in Cube /\ w = <<0, 0, 0>>
Next == w = <<0, 0, 0>> /\ w' \in Cube /\ v' = v
Spec == Init /\ [][Next]_<<v, w>>
Same == w # <<0, 0, 0>> /\ Dot(v, v) = Dot(w, w) /\ Dot(v, w) > -Dot(v, v)
Inv == Same => LET k == Dot(v, v) * (Dot(v, v) + Dot(v, w))
                   T == Rot(v, w)
               IN /\ MV(T, v) = [i \in 1 .. 3 |-> k * w[i]]
                  /\ MM(T, [i \in 1 .. 3 |-> [j \in 1 .. 3 |-> T[j][i]]]) = [i \in 1 .. 3 |-> [j \in 1 .. 3 |-> IF i = j THEN k * k ELSE 0]]
                  /\ T[1][1] + T[2][2] + T[3][3] = (Dot(v, v) + Dot(v, w)) * (Dot(v, v) + 2 * Dot(v, w))   \* 1 + 2 cos
Emit == w # <<0, 0, 0>> => CSVWrite("%1$s", <<ToJson([v |-> v, w |-> w])>>, IOEnv.CASES)
=============================================================================
