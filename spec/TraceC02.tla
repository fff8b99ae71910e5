------------------------------ MODULE TraceC02 ------------------------------
(* C02: fits are equivariant under changes of frame, whatever the history.   *)
(* Abstract state: the first observed fit and the transformation since.      *)
EXTENDS StatefulTrace, Frame

Ok(o) == /\ o.built = "ok" /\ FinVec(o.center, 3) /\ FinMat(o.axes, 3, 3) /\ FinVec(o.sv, 3)
         /\ FinVec(o.normal, 3) /\ FinVec(o.hyp, 3) /\ FinVec(o.ang, 2) /\ FinVec(o.sdr, 3)
         /\ FinVec(o.eig, 3) /\ FinNum(o.explained)

C02Begin(e) == [f |-> Identity, first |-> e.fit, mag |-> e.mag, ordered |-> TRUE]
Moved(s, e) ==
  CASE e.op = "translate" -> [s EXCEPT !.f = Translate(@, Tup(e.d)), !.mag = RAdd(@, MaxAbs(Tup(e.d)))]
    [] e.op = "scale" -> [s EXCEPT !.f = Scale(@, Num(e.k)), !.mag = RMul(@, Num(e.k))]
    [] e.op = "turn" -> [s EXCEPT !.f = Turn(@, Mat(e.G))]
    [] e.op = "signed" -> [s EXCEPT !.f = Turn(@, Signed(e.p, e.sg))]
    [] e.op = "permute" -> [s EXCEPT !.ordered = FALSE]
    [] OTHER -> s
C02Step(s, e) == Moved(s, e)

C02Verdict(s0, e) ==
  LET s == TLCEval(Moved(s0, e))
      f == s.f
      a == s.first
      b == e.fit
      sv0 == Tup(a.sv)
      A0 == Mat(a.axes)
      B == Mat(b.axes)
      tol == "1e-6"
      ptol == RAdd(RMul("1e-9", RMul(f.k, sv0[1])), RMul("1e-12", s.mag))
      clean == RLt(RMul("1e-9", s.mag), RMul(f.k, sv0[1]))   \* data well above rounding
      n1 == MV(f.M, A0[3])
  IN << Must("still-fits", Ok(b)) >> \o
     When(Ok(a) /\ Ok(b), <<
       Must("center-moves", Near(Tup(b.center), Image(f, Tup(a.center)), ptol)),
       Must("singular-values-scale", Near(Tup(b.sv), Vmul(f.k, sv0), RMul(tol, RMul(f.k, sv0[1])))),
       Must("eigenvalues-scale", Near(Tup(b.eig), Vmul(Sq(f.k), Tup(a.eig)), RMul(tol, RMul(Sq(f.k), At(a.eig, 1))))) >>
     \o [i \in 1 .. 3 |-> Clause("axis-turns-" \o ToString(i), Isolated(sv0, i),
                                NearUpToSign(B[i], MV(f.M, A0[i]), tol))]
     \o << Clause("normal-turns", Isolated(sv0, 3), NearUpToSign(Tup(b.normal), n1, tol)),
       Clause("strike-dip-turn", Isolated(sv0, 3), Describes(At(b.sdr, 1), At(b.sdr, 2), n1, "1e-5")),
       Clause("strike-dip-kept", Isolated(sv0, 3) /\ e.op \in {"translate", "scale", "permute", "weights"},
              /\ RNear(At(b.sdr, 2), At(e.prev.sdr, 2), "1e-4")
              /\ RLt(At(b.sdr, 2), "0.01") \/ RLt("89.99", At(b.sdr, 2))
                 \/ NearMod360(At(b.sdr, 1), At(e.prev.sdr, 1), "1e-4")),
       Must("error-axes-scale", \A i \in 1 .. 3 : RNear(At(b.hyp, i), RMul(Sq(f.k), At(a.hyp, i)),
                                                     RMul(RMul(tol, Sq(f.k)), At(a.eig, 1)))),
       Clause("angular-errors-invariant", RLt(RMul("1e-4", sv0[1]), sv0[3]),
            \A i \in 1 .. 2 : RNear(At(b.ang, i), At(a.ang, i), "1e-4")),
       Must("explained-invariant", RNear(Num(b.explained), Num(a.explained), "1e-6")),
       Clause("residuals-turn", s.ordered /\ Isolated(sv0, 3) /\ a.res.s = b.res.s /\ Len(a.res.s) = 2,
            LET res == TLCEval([j \in 1 .. 3 |-> ColV(a.res, j)])
            IN \A i \in 1 .. 3 :
                VNear(ColV(b.res, i), VScale(VAdd(VAdd(VScale(res[1], f.M[i][1]), VScale(res[2], f.M[i][2])),
                                                  VScale(res[3], f.M[i][3])), f.k),
                      RAdd(RMul("1e-6", RMul(f.k, sv0[1])), ptol))) >>)
=============================================================================
