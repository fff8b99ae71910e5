------------------------------ MODULE Regress -------------------------------
(* Ordinary least squares of z on x and y over a centred cloud.  Columns are  *)
(* flat.                                                                      *)
EXTENDS Linear
LOCAL INSTANCE TLC

MeanOf(c) == RDiv(VSum(c), VLen(c))
Centred(c) == VShift(c, MeanOf(c))
Ones(n) == [i \in 1 .. 2 * n |-> IF (i % 2) = 1 THEN R(1)[1] ELSE R(1)[2]]
(* C'C for columns x, y, 1                                                    *)
Normal(x, y) ==
  << <<VDot(x, x), VDot(x, y), VSum(x)>>, <<VDot(x, y), VDot(y, y), VSum(y)>>, <<VSum(x), VSum(y), R(VLen(x))>> >>
Predicted(x, y, m) == VAdd(VScale(x, m[1]), VAdd(VScale(y, m[2]), VScale(Ones(VLen(x)), m[3])))
Res(x, y, z, m) == VAdd(z, VScale(Predicted(x, y, m), -1))
=============================================================================
