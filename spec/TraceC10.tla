------------------------------ MODULE TraceC10 ------------------------------
(* C10: a group is the fit of its members' pooled points.                    *)
EXTENDS StatelessTrace, Fit, ErrorAxes, Attitude

RECURSIVE PoolCol(_, _, _)
PoolCol(parts, k, j) == IF k = Len(parts) THEN parts[k][j] ELSE VCat(parts[k][j], PoolCol(parts, k + 1, j))
RECURSIVE Total(_, _)
Total(cl, k) == IF k > Len(cl) THEN 0 ELSE cl[k].s[1] + Total(cl, k + 1)
RECURSIVE BigM(_, _)
BigM(cl, k) == IF k > Len(cl) THEN R(1) ELSE RMax(Magnitude(cl[k]), BigM(cl, k + 1))

Group(e) ==
  LET m == Len(e.clouds)
      n == Total(e.clouds, 1)
      raw == TLCEval([k \in 1 .. m |-> Cols(e.clouds[k])])
      ctr == TLCEval([k \in 1 .. m |-> Centred(e.clouds[k])])
      all == TLCEval([j \in 1 .. 3 |-> PoolCol(raw, 1, j)])
      center == TLCEval([j \in 1 .. 3 |-> RDiv(VSum(all[j]), n)])
      (* the points that are fitted, relative to their mean *)
      cc == TLCEval(IF e.same = 1 THEN [j \in 1 .. 3 |-> VShift(all[j], center[j])]
                    ELSE [j \in 1 .. 3 |-> PoolCol(ctr, 1, j)])
      S == Scatter(cc)
      big == BigM(e.clouds, 1)
      pt == TLCEval(RMul("1e-9", RAdd(Extent(cc), RMul("1e-3", big))))
      mt == TLCEval(RMul(RMul(n, RAdd(Extent(cc), "1e-300")), pt))
      ok == FinVec(e.center, 3) /\ FinMat(e.axes, 3, 3) /\ FinVec(e.sv, 3) /\ FinVec(e.normal, 3)
            /\ FinMat(e.arr, n, 3) /\ FinVec(e.sd, 2) /\ FinNum(e.n) /\ FinVec(e.hyp, 3) /\ FinMat(e.res, n, 3)
      A == Mat(e.axes)
      s == Tup(e.sv)
      lam == [i \in 1 .. 3 |-> Sq(s[i])]
      ev == [i \in 1 .. 3 |-> RDiv(lam[i], n - 1)]
  IN << Must("group-built", e.built = "ok"), Clause("group-shapes", e.built = "ok", ok) >> \o
     When(e.built = "ok" /\ ok, <<
       Must("counts-all-points", RNear(Num(e.n), n, 0)),
       Must("center-is-mean-of-all-points", Near(Tup(e.center), center, pt)),
       Must("pools-member-points", \A j \in 1 .. 3 : VNear(ColV(e.arr, j), cc[j], pt)),
       Must("group-axes-orthonormal", Orthonormal(A, "1e-9")),
       Must("group-eigenvectors", \A i \in 1 .. 3 : Near(MV(S, A[i]), Vmul(lam[i], A[i]), mt)),
       Must("group-order", RLe(s[3], s[2]) /\ RLe(s[2], s[1])),
       Must("group-normal", NearUpToSign(Tup(e.normal), A[3], "1e-9") /\ RLe(0, At(e.normal, 3))),
       Must("group-strike-dip", Describes(At(e.sd, 1), At(e.sd, 2), A[3], "1e-6")),
       Must("group-errors-use-all-points",
            LET want == TLCEval(Statistical("noise", ev, n, "0.95", 0, 1))
            IN \A i \in 1 .. 3 : RNear(At(e.hyp, i), want[i], RMul("1e-6", RAdd(want[i], ev[1])))),
       Must("group-residuals", \A j \in 1 .. 3 :
            VNear(ColV(e.res, j), VScale(Along(cc, A[3]), A[3][j]), RMul(10, pt))),
       Must("members-keep-their-fits", e.before = e.after),
       Must("member-order-irrelevant", FinVec(e.revsv, 3) /\ FinVec(e.revcenter, 3) /\ FinMat(e.revaxes, 3, 3) /\
            /\ Near(Tup(e.revsv), s, RMul(RAdd("1e-7", "0"), RAdd(s[1], "1e-300")))
            /\ Near(Tup(e.revcenter), center, pt)) >>)

(* with loadings: the axes are those of the pooled points over the loadings   *)
Loaded(e) ==
  LET m == Len(e.clouds)
      n == Total(e.clouds, 1)
      raw == TLCEval([k \in 1 .. m |-> Cols(e.clouds[k])])
      ctr == TLCEval([k \in 1 .. m |-> Centred(e.clouds[k])])
      all == TLCEval([j \in 1 .. 3 |-> PoolCol(raw, 1, j)])
      center == TLCEval([j \in 1 .. 3 |-> RDiv(VSum(all[j]), n)])
      cc == TLCEval([j \in 1 .. 3 |-> VScale(IF e.same = 1 THEN VShift(all[j], center[j]) ELSE PoolCol(ctr, 1, j), RDiv(1, At(e.weights, j)))])
      S == TLCEval(Scatter(cc))
      ok == FinVec(e.center, 3) /\ FinMat(e.axes, 3, 3) /\ FinVec(e.sv, 3)
      A == Mat(e.axes)
      lam == [i \in 1 .. 3 |-> Sq(RDiv(At(e.sv, i), At(e.weights, i)))]
      tol == TLCEval(RMul("1e-9", RAdd(RAdd(S[1][1], S[2][2]), S[3][3])))
  IN << Must("loaded-group-built", e.built = "ok"), Clause("loaded-group-shapes", e.built = "ok", ok) >> \o
     When(e.built = "ok" /\ ok, <<
       Must("loaded-group-axes", Orthonormal(A, "1e-9") /\ \A i \in 1 .. 3 : Near(MV(S, A[i]), Vmul(lam[i], A[i]), tol)),
       Must("loaded-group-order", RLe(lam[3], RAdd(lam[2], tol)) /\ RLe(lam[2], RAdd(lam[1], tol))),
       Must("loaded-group-center", Near(Tup(e.center), center, "1e-9")) >>)

C10(e) == CASE e.ev = "group" -> Group(e) [] e.ev = "weighted" -> Loaded(e)
=============================================================================
