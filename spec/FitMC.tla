------------------------------- MODULE FitMC -------------------------------
(* All small integer clouds, built point by point, with the scatter matrix   *)
(* kept incrementally in exact integer arithmetic.  The invariants are the   *)
(* facts about the abstract problem that the trace specification relies on.  *)
(* Every completed cloud is emitted as a case for the implementation.        *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, CSV, IOUtils
CONSTANTS Coord, MinN, MaxN, Every
VARIABLES pts, sum, mom     \* points in non-decreasing order; sums; raw moments

Pt == Coord \X Coord \X Coord
Leq(p, q) == \/ p[1] < q[1]
             \/ p[1] = q[1] /\ p[2] < q[2]
             \/ p[1] = q[1] /\ p[2] = q[2] /\ p[3] <= q[3]
n == Len(pts)

Init == pts = <<>> /\ sum = <<0, 0, 0>> /\ mom = [i \in 1 .. 3 |-> [j \in 1 .. 3 |-> 0]]
Add(p) == /\ n < MaxN
          /\ n > 0 => Leq(pts[n], p)
          /\ pts' = Append(pts, p)
          /\ sum' = [i \in 1 .. 3 |-> sum[i] + p[i]]
          /\ mom' = [i \in 1 .. 3 |-> [j \in 1 .. 3 |-> mom[i][j] + p[i] * p[j]]]
Next == \E p \in Pt : Add(p)
vars == <<pts, sum, mom>>
Spec == Init /\ [][Next]_vars

(* n^2 times the scatter about the centroid, exactly *)
Scat(k, su, mo) == [i \in 1 .. 3 |-> [j \in 1 .. 3 |-> k * mo[i][j] - su[i] * su[j]]]
S == Scat(n, sum, mom)
Minor(i, j) == S[i][i] * S[j][j] - S[i][j] * S[j][i]
Det == S[1][1] * (S[2][2] * S[3][3] - S[2][3] * S[3][2])
     - S[1][2] * (S[2][1] * S[3][3] - S[2][3] * S[3][1])
     + S[1][3] * (S[2][1] * S[3][2] - S[2][2] * S[3][1])

RECURSIVE SumOver(_, _, _)
SumOver(f(_), k, i) == IF i > k THEN 0 ELSE f(i) + SumOver(f, k, i + 1)

IncrementalIsExact ==
  /\ \A i \in 1 .. 3 : sum[i] = SumOver(LAMBDA k : pts[k][i], n, 1)
  /\ \A i, j \in 1 .. 3 : mom[i][j] = SumOver(LAMBDA k : pts[k][i] * pts[k][j], n, 1)
Symmetric == \A i, j \in 1 .. 3 : S[i][j] = S[j][i]
PositiveSemidefinite == /\ \A i \in 1 .. 3 : S[i][i] >= 0
                        /\ \A i, j \in 1 .. 3 : Minor(i, j) >= 0
                        /\ Det >= 0
(* a shift of the cloud leaves the scatter alone *)
TranslationInvariant ==
  \A d \in {<<1, 0, 0>>, <<0, -2, 0>>, <<3, 1, 2>>} :
    LET su == [i \in 1 .. 3 |-> sum[i] + n * d[i]]
        mo == [i \in 1 .. 3 |-> [j \in 1 .. 3 |->
                 mom[i][j] + d[i] * sum[j] + d[j] * sum[i] + n * d[i] * d[j]]]
    IN Scat(n, su, mo) = S
(* the scatter about the centroid is the least over all reference points     *)
CentroidIsBest ==
  \A q \in {<<0, 0, 0>>, <<1, 1, 1>>, <<-1, 2, 0>>} :
    n * SumOver(LAMBDA i : SumOver(LAMBDA k : (pts[k][i] - q[i]) * (pts[k][i] - q[i]), n, 1), 3, 1)
      >= S[1][1] + S[2][2] + S[3][3]
(* coplanarity is visible in the determinant *)
FlatMeansSingular ==
  (n > 0 /\ \E j \in 1 .. 3 : \A k \in 1 .. n : pts[k][j] = pts[1][j]) => Det = 0

Inv == IncrementalIsExact /\ Symmetric /\ PositiveSemidefinite /\ TranslationInvariant
       /\ CentroidIsBest /\ FlatMeansSingular

(* a deterministic sample of the clouds is replayed *)
Key == SumOver(LAMBDA k : (k + 1) * (9 * pts[k][1] + 3 * pts[k][2] + pts[k][3] + 13), n, 1)
Emit == (n >= MinN /\ Key % Every = 0) =>
          CSVWrite("%1$s", <<ToJson([pts |-> pts])>>, IOEnv.CASES)
=============================================================================
