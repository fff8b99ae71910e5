------------------------------ MODULE TraceC05 ------------------------------
(* C05: a fit is recovered from its scaled principal axes.                   *)
EXTENDS StatefulTrace, Attitude, Fit

Ok(o) == /\ o.built = "ok" /\ FinVec(o.center, 3) /\ FinMat(o.axes, 3, 3) /\ FinVec(o.sv, 3)
         /\ FinVec(o.normal, 3) /\ FinVec(o.hyp, 3) /\ FinVec(o.ang, 2) /\ FinVec(o.sdr, 3)
         /\ FinVec(o.eig, 3) /\ FinNum(o.explained) /\ FinMat(o.sigma, 3, 3)
C05Begin(e) == [fit |-> e.fit, cloud |-> e.cloud, saved |-> e.fit.axes]
C05Step(s, e) == CASE e.ev = "save" -> [s EXCEPT !.saved = e.axes]
                   [] OTHER -> s
(* premise: no axis is degenerate, so that scaling loses nothing *)
Sound(s) == Ok(s.fit) /\ RLt(RMul("1e-9", At(s.fit.sv, 1)), At(s.fit.sv, 3))

Save(s, e) ==
  << Must("saved-shape", FinMat(e.axes, 3, 3)) >> \o
  When(FinMat(e.axes, 3, 3) /\ Ok(s.fit),
       << Must("saved-scales-columns", \A i, j \in 1 .. 3 :
            RNear(El(e.axes, i, j), RMul(El(s.fit.axes, i, j), At(s.fit.sv, j)), RMul("1e-9", At(s.fit.sv, 1)))) >>)

Load(s, e) ==
  LET a == s.fit
      b == e.fit
      cc == Centred(s.cloud)
      big == At(a.sv, 1)
      tol == "1e-9"
      n == N(s.cloud)
      pt == RAdd(RMul("1e-11", big), RMul("1e-12", Magnitude(s.cloud)))
  IN << Must("loads", Ok(b)),
        Clause("loaded-shapes", Ok(b), FinMat(b.rot, n, 3) /\ FinMat(b.res, n, 3) /\ FinMat(b.U, n, 3)) >> \o
     When(Ok(b) /\ FinMat(b.rot, n, 3) /\ FinMat(b.res, n, 3) /\ FinMat(b.U, n, 3), <<
       Must("same-center", Near(Tup(b.center), Tup(a.center), pt)),
       Must("same-singular-values", Near(Tup(b.sv), Tup(a.sv), RMul(tol, big))),
       Must("same-axes", MNear(Mat(b.axes), Mat(a.axes), tol)),
       Must("same-normal", NearUpToSign(Tup(b.normal), Tup(a.normal), tol) /\ RLe(0, At(b.normal, 3))),
       Must("same-eigenvalues", Near(Tup(b.eig), Tup(a.eig), RMul(tol, At(a.eig, 1)))),
       Must("same-sigma", \A i, j \in 1 .. 3 : RNear(El(b.sigma, i, j), El(a.sigma, i, j), RMul(tol, big))),
       Must("same-strike-dip",
            Describes(At(b.sdr, 1), At(b.sdr, 2), UpNormal(At(a.sdr, 1), At(a.sdr, 2)), "1e-7")),
       Must("same-rake", RNear(RCos(RRad(At(b.sdr, 3))), RCos(RRad(At(a.sdr, 3))), "1e-6")
                         \/ RLt(At(a.sdr, 2), "0.01") \/ RLt("89.99", At(a.sdr, 2))),
       Must("same-error-axes", \A i \in 1 .. 3 : RNear(At(b.hyp, i), At(a.hyp, i), RMul("1e-8", At(a.eig, 1)))),
       Must("same-angular-errors", \A i \in 1 .. 2 : RNear(At(b.ang, i), At(a.ang, i), "1e-5")),
       Must("same-explained", RNear(Num(b.explained), Num(a.explained), "1e-8")),
       Must("same-rotated", \A j \in 1 .. 3 : VNear(ColV(b.rot, j), Along(cc, Mat(a.axes)[j]), pt)),
       Must("same-residuals", \A j \in 1 .. 3 :
            VNear(ColV(b.res, j), VScale(Along(cc, Mat(a.axes)[3]), Mat(a.axes)[3][j]), pt)),
       Must("same-left-vectors", \A j \in 1 .. 3 :
            VNear(VScale(ColV(b.U, j), At(a.sv, j)), Along(cc, Mat(a.axes)[j]), RMul(10, pt))) >>)

C05Verdict(s, e) ==
  IF Sound(s) THEN (CASE e.ev = "save" -> Save(s, e) [] e.ev = "load" -> Load(s, e) [] OTHER -> <<>>) ELSE <<>>
=============================================================================
