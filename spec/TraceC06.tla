------------------------------ MODULE TraceC06 ------------------------------
(* C06: a reconstructed plane is the plane it was stated to be.              *)
EXTENDS StatelessTrace, Recon

Plane(e) ==
  LET sd == Tup(e.sdr)
      ok == FinVec(e.normal, 3) /\ FinMat(e.axes, 3, 3) /\ FinVec(e.hyp, 3) /\ FinMat(e.cov, 3, 3)
            /\ FinVec(e.gotsdr, 3) /\ FinVec(e.goterr, 2)
      A == Mat(e.axes)
      n == UpNormal(sd[1], sd[2])
      vertical == RLe(RAbs(n[3]), "1e-9")
      h == HyperbolicAxes(At(e.err, 1), At(e.err, 2), Num(e.ne))
      cl(x, y) == RNear(x, y, RMul("1e-9", RAdd(RAbs(y), "1e-9")))
  IN << Must("constructed", e.built = "ok"), Clause("shapes", e.built = "ok", ok) >> \o
     When(e.built = "ok" /\ ok, <<
       Must("normal", IF vertical THEN NearUpToSign(Tup(e.normal), n, "1e-9") ELSE Near(Tup(e.normal), n, "1e-9")),
       Must("third-axis-is-normal", IF vertical THEN NearUpToSign(A[3], n, "1e-9") ELSE Near(A[3], n, "1e-9")),
       Must("axes-orthonormal", Orthonormal(A, "1e-9")),
       Must("second-axis-at-rake", NearUpToSign(A[2], RakeLine(sd[1], sd[2], sd[3]), "1e-9")),
       Must("error-axes", \A i \in 1 .. 3 : cl(At(e.hyp, i), h[i])),
       Must("covariance-holds-error-axes", \A i, j \in 1 .. 3 : cl(El(e.cov, i, j), IF i = j THEN h[i] ELSE R(0))),
       Must("reports-strike-dip-rake", \A i \in 1 .. 3 : REq(At(e.gotsdr, i), sd[i])),
       Must("reports-angular-errors", \A i \in 1 .. 2 : REq(At(e.goterr, i), At(e.err, i))) >>)

(* A fit, its published strike/dip/rake and errors, and the plane that they   *)
(* reconstruct: same plane, and the fit's first axis in its frame.            *)
Back(e) ==
  LET ok == FinVec(e.normal, 3) /\ FinMat(e.axes, 3, 3) /\ FinVec(e.sdr, 3) /\ FinVec(e.fitnormal, 3) /\ FinMat(e.fitaxes, 3, 3)
  IN << Must("rebuilt", e.built = "ok" /\ ok) >> \o
     When(e.built = "ok" /\ ok,
       LET n == Tup(e.fitnormal)
       IN << Must("same-plane", IF RLe(RAbs(n[3]), "1e-7") THEN NearUpToSign(Tup(e.normal), n, "1e-7")
                                ELSE Near(Tup(e.normal), Up(n), "1e-7")),
             Must("frame-in-same-plane", \A i \in 1 .. 2 : RNear(Dot(Row(e.axes, i), n), 0, "1e-7")) >>)

(* planes that state the same thing *)
Same(e) == << Must("full-turn-is-identity", FinMat(e.a, 3, 3) /\ FinMat(e.b, 3, 3) /\
               \A i \in 1 .. 3 : NearUpToSign(Row(e.a, i), Row(e.b, i), "1e-9")) >>

C06(e) == CASE e.ev = "plane" -> Plane(e) [] e.ev = "back" -> Back(e) [] e.ev = "same" -> Same(e)
=============================================================================
