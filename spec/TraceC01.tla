------------------------------ MODULE TraceC01 ------------------------------
(* C01: the fit is the total-least-squares plane of its cloud.              *)
EXTENDS StatelessTrace, Fit

FitClauses(e) ==
  LET rel == e.rel
      cc == Centred(e.cloud)
      c0 == Centroid(e.cloud)
      S == Scatter(cc)
      pt == TLCEval(PosTol(e.cloud, cc, rel))
      mt == TLCEval(MomTol(e.cloud, cc, rel))
      A == Mat(e.axes)
      s == Tup(e.sv)
      n == N(e.cloud)
      plain == e.w = "none"
      lam == [i \in 1 .. 3 |-> Sq(s[i])]
      shapes == /\ FinVec(e.center, 3) /\ FinMat(e.axes, 3, 3) /\ FinVec(e.sv, 3)
                /\ FinVec(e.normal, 3) /\ FinMat(e.arr, n, 3) /\ FinVec(e.eig, 3)
                /\ FinMat(e.rot, n, 3) /\ FinMat(e.res, n, 3) /\ IsMat(e.sigma, 3, 3)
  IN << Must("constructed", e.built = "ok"),
        Clause("shapes", e.built = "ok", shapes) >> \o
     When(e.built = "ok" /\ shapes, <<
        Must("center-is-centroid", Near(Tup(e.center), c0, pt)),
        Must("centred-data", \A j \in 1 .. 3 : VNear(ColV(e.arr, j), cc[j], pt)),
        Must("axes-orthonormal", Orthonormal(A, RMul(10, rel))),
        Must("singular-values-sorted", RLe(0, s[3]) /\ RLe(s[3], s[2]) /\ RLe(s[2], s[1])),
        Must("eigenvectors", \A i \in 1 .. 3 : Near(MV(S, A[i]), Vmul(lam[i], A[i]), mt)),
        Must("no-better-plane", \A d \in Probe :
              RLe(RMul(lam[3], Dot(d, d)), RAdd(Quad(S, d), RMul(3, mt)))),
        Must("longest-axis", \A d \in Probe :
              RLe(Quad(S, d), RAdd(RMul(lam[1], Dot(d, d)), RMul(3, mt)))),
        Must("normal-is-third-axis", NearUpToSign(Tup(e.normal), A[3], rel)),
        Must("normal-points-up", RLe(0, At(e.normal, 3))),
        Must("eigenvalues", \A i \in 1 .. 3 : RNear(RMul(At(e.eig, i), n - 1), lam[i],
                                                   RMul(RMul(100, rel), RAdd(lam[i], "1e-300")))),
        Must("sigma-diagonal", \A i, j \in 1 .. 3 : REq(El(e.sigma, i, j), IF i = j THEN s[i] ELSE 0)),
        Must("rotated", \A j \in 1 .. 3 : VNear(ColV(e.rot, j), Along(cc, A[j]), RMul(10, pt))),
        Must("residuals", \A j \in 1 .. 3 :
              VNear(ColV(e.res, j), VScale(Along(cc, A[3]), A[3][j]), RMul(10, pt))),
        Must("residual-sum-of-squares",
              RNear(RAdd(VDot(ColV(e.res, 1), ColV(e.res, 1)),
                         RAdd(VDot(ColV(e.res, 2), ColV(e.res, 2)), VDot(ColV(e.res, 3), ColV(e.res, 3)))),
                    lam[3], RMul(10, mt))),
        Must("explained-variance", FinNum(e.explained) => RLeq3(0, Num(e.explained), RAdd(1, rel))),
        Clause("decomposition", e.full = 1,
              /\ FinMat(e.U, n, 3)
              /\ \A j \in 1 .. 3 :
                   VNear(cc[j], VAdd(VAdd(VScale(ColV(e.U, 1), RMul(s[1], A[1][j])),
                                          VScale(ColV(e.U, 2), RMul(s[2], A[2][j]))),
                                     VScale(ColV(e.U, 3), RMul(s[3], A[3][j]))), RMul(10, pt))) >>)

(* Axis weights: the fit is made on coordinates divided by the weights, and  *)
(* the scale of each axis is restored by the weight of the same rank.        *)
WeightClauses(e) ==
  LET w == Tup(e.weights)
      c1 == Centred(e.cloud)
      cc == TLCEval([j \in 1 .. 3 |-> VScale(c1[j], RDiv(1, w[j]))])
      S == Scatter(cc)
      A == Mat(e.axes)
      s == Tup(e.sv)
      mt == TLCEval(RMul(10, MomTol(e.cloud, cc, e.rel)))
      lam == [i \in 1 .. 3 |-> Sq(RDiv(s[i], w[i]))]
      n == N(e.cloud)
      shapes == FinMat(e.axes, 3, 3) /\ FinVec(e.sv, 3) /\ FinVec(e.center, 3) /\ FinVec(e.normal, 3)
                /\ FinMat(e.arr, n, 3) /\ FinMat(e.rot, n, 3) /\ FinMat(e.res, n, 3) /\ FinVec(e.eig, 3)
      pt == TLCEval(RMul(100, PosTol(e.cloud, c1, e.rel)))
  IN << Must("weighted-shapes", e.built = "ok" /\ shapes) >> \o
     When(e.built = "ok" /\ shapes, <<
        Must("weighted-center", Near(Tup(e.center), Centroid(e.cloud), PosTol(e.cloud, c1, e.rel))),
        Must("weighted-orthonormal", Orthonormal(A, RMul(10, e.rel))),
        Must("weighted-eigenvectors", \A i \in 1 .. 3 : Near(MV(S, A[i]), Vmul(lam[i], A[i]), mt)),
        Must("weighted-normal", NearUpToSign(Tup(e.normal), A[3], e.rel) /\ RLe(0, At(e.normal, 3))),
        Must("weighted-centred-data", \A j \in 1 .. 3 : VNear(ColV(e.arr, j), c1[j], pt)),
        Must("weighted-rotated", \A j \in 1 .. 3 : VNear(ColV(e.rot, j), Along(c1, A[j]), pt)),
        Must("weighted-residuals", \A j \in 1 .. 3 : VNear(ColV(e.res, j), VScale(Along(c1, A[3]), A[3][j]), pt)),
        Must("weighted-eigenvalues", \A i \in 1 .. 3 : RNear(RMul(At(e.eig, i), n - 1), Sq(s[i]), RMul("1e-9", RAdd(Sq(s[i]), "1e-300")))),
        Must("weighted-order", RLe(lam[3], RAdd(lam[2], mt)) /\ RLe(lam[2], RAdd(lam[1], mt))) >>)

C01(e) ==
  CASE e.ev = "fit" -> FitClauses(e)
    [] e.ev = "weighted" -> WeightClauses(e)
    [] e.ev = "few" -> << Must("too-few-points-rejected", e.built = "ValueError") >>
=============================================================================
