------------------------------ MODULE FrameMC ------------------------------
(* Words of frame changes acting on an integer cloud, in exact arithmetic.    *)
(* The state holds the transformed cloud and the accumulated transformation;  *)
(* the invariants are the equivariance laws of the scatter matrix.  Every     *)
(* maximal word is emitted and replayed on the implementation.                *)
EXTENDS Integers, Sequences, TLC, Json, CSV, IOUtils
CONSTANTS MaxLen
VARIABLES word, pts, G, k, t

Base == << <<0, 0, 0>>, <<7, 1, 2>>, <<-3, 4, 1>>, <<5, -6, 0>>, <<2, 3, -2>>, <<-8, 2, 1>> >>
n == Len(Base)
I3 == << <<1, 0, 0>>, <<0, 1, 0>>, <<0, 0, 1>> >>
Op == { "tx", "tyz", "scale2", "scale3", "rx", "ry", "rz", "mx", "reverse", "rotate", "weights" }
Mat(o) == CASE o = "rx" -> << <<1, 0, 0>>, <<0, 0, -1>>, <<0, 1, 0>> >>
            [] o = "ry" -> << <<0, 0, 1>>, <<0, 1, 0>>, <<-1, 0, 0>> >>
            [] o = "rz" -> << <<0, -1, 0>>, <<1, 0, 0>>, <<0, 0, 1>> >>
            [] o = "mx" -> << <<-1, 0, 0>>, <<0, 1, 0>>, <<0, 0, 1>> >>
Shift(o) == IF o = "tx" THEN <<5, 0, 0>> ELSE <<0, -3, 11>>

Mul(A, v) == [i \in 1 .. 3 |-> A[i][1] * v[1] + A[i][2] * v[2] + A[i][3] * v[3]]
MulM(A, B) == [i \in 1 .. 3 |-> [j \in 1 .. 3 |->
                 A[i][1] * B[1][j] + A[i][2] * B[2][j] + A[i][3] * B[3][j]]]
T(A) == [i \in 1 .. 3 |-> [j \in 1 .. 3 |-> A[j][i]]]

Do(o) ==
  CASE o \in {"tx", "tyz"} -> /\ pts' = [i \in 1 .. n |-> [j \in 1 .. 3 |-> pts[i][j] + Shift(o)[j]]]
                              /\ t' = [j \in 1 .. 3 |-> t[j] + Shift(o)[j]] /\ UNCHANGED <<G, k>>
    [] o \in {"scale2", "scale3"} ->
         LET s == IF o = "scale2" THEN 2 ELSE 3
         IN /\ pts' = [i \in 1 .. n |-> [j \in 1 .. 3 |-> s * pts[i][j]]]
            /\ t' = [j \in 1 .. 3 |-> s * t[j]] /\ k' = s * k /\ UNCHANGED G
    [] o \in {"rx", "ry", "rz", "mx"} ->
         /\ pts' = [i \in 1 .. n |-> Mul(Mat(o), pts[i])]
         /\ t' = Mul(Mat(o), t) /\ G' = MulM(Mat(o), G) /\ UNCHANGED k
    [] o = "reverse" -> pts' = [i \in 1 .. n |-> pts[n + 1 - i]] /\ UNCHANGED <<G, k, t>>
    [] o = "rotate" -> pts' = [i \in 1 .. n |-> pts[(i % n) + 1]] /\ UNCHANGED <<G, k, t>>
    [] o = "weights" -> UNCHANGED <<pts, G, k, t>>

Init == word = <<>> /\ pts = Base /\ G = I3 /\ k = 1 /\ t = <<0, 0, 0>>
Next == /\ Len(word) < MaxLen
        /\ \E o \in Op : Do(o) /\ word' = Append(word, o)
Spec == Init /\ [][Next]_<<word, pts, G, k, t>>

RECURSIVE SumOver(_, _, _)
SumOver(f(_), m, i) == IF i > m THEN 0 ELSE f(i) + SumOver(f, m, i + 1)
Scat(P) == [i \in 1 .. 3 |-> [j \in 1 .. 3 |->
             n * SumOver(LAMBDA q : P[q][i] * P[q][j], n, 1)
             - SumOver(LAMBDA q : P[q][i], n, 1) * SumOver(LAMBDA q : P[q][j], n, 1)]]
S0 == Scat(Base)
MulK(c, A) == [i \in 1 .. 3 |-> [j \in 1 .. 3 |-> c * A[i][j]]]

Orthogonal == MulM(G, T(G)) = I3
ScatterEquivariant == Scat(pts) = MulK(k * k, MulM(G, MulM(S0, T(G))))
CentroidEquivariant ==
  \A i \in 1 .. 3 : SumOver(LAMBDA q : pts[q][i], n, 1)
                    = k * Mul(G, [j \in 1 .. 3 |-> SumOver(LAMBDA q : Base[q][j], n, 1)])[i] + n * t[i]
Image(x) == [i \in 1 .. 3 |-> k * Mul(G, x)[i] + t[i]]
SamePoints == {pts[i] : i \in 1 .. n} = {Image(Base[i]) : i \in 1 .. n}
Inv == Orthogonal /\ ScatterEquivariant /\ CentroidEquivariant /\ SamePoints
Emit == Len(word) = MaxLen => CSVWrite("%1$s", <<ToJson([word |-> word])>>, IOEnv.CASES)
=============================================================================
