------------------------------ MODULE ConicMC -------------------------------
(* Conics and quadrics as integer symmetric matrices M: the zero set (and     *)
(* interior) of p -> (p,1) M (p,1).  Histories of translations and unimodular *)
(* changes of frame.  Invariants: the value at every tracked point is carried *)
(* along unchanged, the matrix stays symmetric, the center moves with it and  *)
(* polarity is symmetric.                                                     *)
EXTENDS Integers, Sequences, TLC, Json, CSV, IOUtils
CONSTANTS MaxOps
VARIABLES dim, start, M, pts, ctr, hist

RECURSIVE SumTo(_, _)
SumTo(f, n) == IF n = 0 THEN 0 ELSE f[n] + SumTo(f, n - 1)
MM(A, B) == TLCEval([i \in DOMAIN A |-> [j \in DOMAIN B[1] |-> SumTo([k \in DOMAIN B |-> A[i][k] * B[k][j]], Len(B))]])
Tr(A) == TLCEval([j \in DOMAIN A[1] |-> [i \in DOMAIN A |-> A[i][j]]])
MV(A, u) == TLCEval([i \in DOMAIN A |-> SumTo([k \in DOMAIN u |-> A[i][k] * u[k]], Len(u))])
Aug(p) == Append(p, 1)
Form(A, p, q) == LET w == MV(A, Aug(q)) IN SumTo([i \in DOMAIN w |-> Aug(p)[i] * w[i]], Len(w))
Add(p, q) == [i \in DOMAIN p |-> p[i] + q[i]]
Neg(p) == [i \in DOMAIN p |-> -p[i]]
(* the affine map with linear part L and offset o                             *)
Affine(L, o) == [i \in 1 .. Len(o) + 1 |-> [j \in 1 .. Len(o) + 1 |->
                   IF i <= Len(o) /\ j <= Len(o) THEN L[i][j] ELSE IF i <= Len(o) THEN o[i] ELSE IF j <= Len(o) THEN 0 ELSE 1]]
Eye(n) == [i \in 1 .. n |-> [j \in 1 .. n |-> IF i = j THEN 1 ELSE 0]]
Zero(n) == [i \in 1 .. n |-> 0]

Starts == << << <<1,0,0>>, <<0,1,0>>, <<0,0,-4>> >>, << <<4,0,0>>, <<0,1,0>>, <<0,0,-16>> >>, << <<2,1,0>>, <<1,2,0>>, <<0,0,-6>> >>,
             << <<1,0,0>>, <<0,-1,0>>, <<0,0,-1>> >>, << <<1,2,0>>, <<2,1,0>>, <<0,0,-3>> >>,
             << <<1,0,0,0>>, <<0,1,0,0>>, <<0,0,1,0>>, <<0,0,0,-9>> >>, << <<1,0,0,0>>, <<0,4,0,0>>, <<0,0,9,0>>, <<0,0,0,-36>> >>,
             << <<2,1,0,0>>, <<1,2,1,0>>, <<0,1,3,0>>, <<0,0,0,-5>> >>, << <<1,0,0,0>>, <<0,1,0,0>>, <<0,0,-1,0>>, <<0,0,0,-1>> >> >>
Moves(d) == IF d = 2 THEN {<<1, 0>>, <<-2, 3>>} ELSE {<<0, 0, 5>>, <<1, -2, 3>>}
(* pairs of a linear map and its inverse                                      *)
Maps(d) == IF d = 2 THEN { <<<<<<0, 1>>, <<-1, 0>>>>, <<<<0, -1>>, <<1, 0>>>>>>, <<<<<<1, 1>>, <<0, 1>>>>, <<<<1, -1>>, <<0, 1>>>>>> }
           ELSE { <<<<<<0,1,0>>, <<0,0,1>>, <<1,0,0>>>>, <<<<0,0,1>>, <<1,0,0>>, <<0,1,0>>>>>>,
                  <<<<<<1,0,0>>, <<1,1,0>>, <<0,0,-1>>>>, <<<<1,0,0>>, <<-1,1,0>>, <<0,0,-1>>>>>> }
Points(d) == IF d = 2 THEN << <<0, 0>>, <<2, 0>>, <<1, 1>>, <<-3, 4>> >> ELSE << <<0, 0, 0>>, <<3, 0, 0>>, <<1, -1, 2>> >>

Init == \E s \in DOMAIN Starts : /\ start = s /\ M = Starts[s] /\ dim = Len(Starts[s]) - 1
                                 /\ pts = Points(dim) /\ ctr = Zero(dim) /\ hist = <<>>
Translate == \E v \in Moves(dim) :
  LET T == Affine(Eye(dim), Neg(v))
  IN /\ M' = MM(Tr(T), MM(M, T))
     /\ pts' = [i \in DOMAIN pts |-> Add(pts[i], v)] /\ ctr' = Add(ctr, v)
     /\ hist' = Append(hist, [op |-> "translate", v |-> v])
Transform == \E m \in Maps(dim) :
  LET T == Affine(m[1], Zero(dim))
  IN /\ M' = MM(Tr(T), MM(M, T))
     /\ pts' = [i \in DOMAIN pts |-> MV(m[2], pts[i])] /\ ctr' = MV(m[2], ctr)
     /\ hist' = Append(hist, [op |-> "transform", v |-> T])
Next == Len(hist) < MaxOps /\ (Translate \/ Transform) /\ UNCHANGED <<dim, start>>
Spec == Init /\ [][Next]_<<dim, start, M, pts, ctr, hist>>
Symmetric == M = Tr(M)
Carried == \A i \in DOMAIN pts : Form(M, pts[i], pts[i]) = Form(Starts[start], Points(dim)[i], Points(dim)[i])
Centered == LET w == MV(M, Aug(ctr)) IN \A i \in 1 .. dim : w[i] = 0
Polarity == \A i, j \in DOMAIN pts : Form(M, pts[i], pts[j]) = Form(M, pts[j], pts[i])
Inv == Symmetric /\ Carried /\ Centered /\ Polarity
Emit == CSVWrite("%1$s", <<ToJson([start |-> Starts[start], hist |-> hist, pts |-> pts, last |-> Len(hist) = MaxOps])>>, IOEnv.CASES)
=============================================================================
