------------------------------ MODULE TraceC17 ------------------------------
(* C17: conics and quadrics.  A conic is the set of points where              *)
(* (p,1) M (p,1) = 0, its inside where that is negative.                      *)
EXTENDS StatelessTrace

AugV(p) == Append(p, R(1))
FormAt(M, p) == Quad(M, AugV(p))
RECURSIVE MaxAbsRows(_, _)
MaxAbsRows(M, i) == IF i > Len(M) THEN R(0) ELSE RMax(MaxAbs(M[i]), MaxAbsRows(M, i + 1))
Size(M) == MaxAbsRows(M, 1)
First(u, n) == SubSeq(u, 1, n)
Block(M, n) == [i \in 1 .. n |-> First(M[i], n)]
Sym(x, n) == FinMat(x, n, n)
(* matrices agree relative to their size                                      *)
MSame(A, B, t) == MNear(A, B, RMul(t, RAdd(Size(A), Size(B))))
Shift(v) == LET n == Len(v) IN
  TLCEval([i \in 1 .. n + 1 |-> [j \in 1 .. n + 1 |-> IF i = j THEN R(1) ELSE IF j = n + 1 THEN RNeg(v[i]) ELSE R(0)]])
Congruent(T, M) == MM(Tr(T), MM(M, T))

Step(e) ==
  LET n == e.m.s[1]
      M == Mat(e.m)
      T == IF e.op = "translate" THEN Shift(Tup(e.arg)) ELSE Mat(e.arg)
  IN << Must("step-shape", Sym(e.out, n)), Must("stays-a-conic", e.conic = 1) >> \o
     When(Sym(e.out, n), << Must(e.op, MSame(Mat(e.out), Congruent(T, M), "1e-12")),
                            Must("input-conic-unchanged", MNear(Mat(e.after), M, 0)) >>)

Center(e) ==
  LET n == e.m.s[1] - 1
      M == Mat(e.m)
      ok == FinVec(e.out, n)
  IN << Must("center-shape", ok) >> \o
     When(ok, << LET c == Tup(e.out)
                     w == MV(M, AugV(c))
                     s == RMul(Size(M), RAdd(1, MaxAbs(c)))
                 IN Must("center", \A i \in 1 .. n : RNear(w[i], 0, RMul("1e-8", s))) >>)

Contains(e) ==
  LET M == Mat(e.m)
      p == Tup(e.p)
      f == FormAt(M, p)
      a == TLCEval([i \in DOMAIN p |-> RAbs(p[i])])
      s == FormAt(TLCEval([i \in DOMAIN M |-> [j \in DOMAIN M |-> RAbs(M[i][j])]]), a)   \* bounds the rounding
      clear == RLt(RMul(s, "1e-13"), RAbs(f))
  IN << Clause("inside", clear, e.inside = (IF RLe(f, 0) THEN 1 ELSE 0)),
        Clause("on-shell", RLt(RMul(s, "1e-13"), "1e-9") /\ RLt(RAbs(f), "5e-9"), e.shell = 1),
        Clause("off-shell", RLt("1e-7", RAbs(f)), e.shell = 0) >>

Axes(e) ==
  LET n == e.m.s[1] - 1
      M == Mat(e.m)
      Q == Block(M, n)
      ok == FinMat(e.out, n, n) /\ FinVec(e.c, n)
  IN << Must("axes-shape", ok) >> \o
     When(ok, << LET V == Mat(e.out)
                     c == Tup(e.c)
                     f0 == FormAt(M, c)
                 IN Must("ends-on-the-conic", \A i \in 1 .. n :
                       RNear(FormAt(M, Vadd(c, V[i])), 0, RMul(RAbs(f0), "1e-7")) /\ RNear(FormAt(M, Vsub(c, V[i])), 0, RMul(RAbs(f0), "1e-7"))),
                 LET V == Mat(e.out) IN
                 Must("axes-perpendicular", \A i \in 1 .. n : \A j \in 1 .. n : i < j =>
                       RNear(Dot(V[i], V[j]), 0, RMul("1e-9", RMul(Norm(V[i]), Norm(V[j]))))),
                 LET V == Mat(e.out) IN
                 Must("axes-principal", \A i \in 1 .. n : \A j \in 1 .. n : i # j =>
                       RNear(Dot(V[j], MV(Q, V[i])), 0, RMul("1e-9", RMul(Size(Q), RMul(Norm(V[i]), Norm(V[j])))))) >>)

Dual(e) == LET n == e.m.s[1] IN
  << Must("dual-shape", Sym(e.out, n)) >> \o
  When(Sym(e.out, n), << LET P == MM(Mat(e.m), Mat(e.out)) IN
     Must("dual-is-inverse", MNear(P, Eye(n), RMul("1e-11", RAdd(1, RMul(Size(Mat(e.m)), Size(Mat(e.out))))))) >>)

Polar(e) ==
  LET n == e.m.s[1] - 1
      M == Mat(e.m)
      v == Tup(e.v)
      ok == FinVec(e.plane, n + 1)
  IN << Must("polar-shape", ok /\ FinVec(e.pole, n)) >> \o
     When(ok, << Must("polar-plane", Near(Tup(e.plane), MV(M, AugV(v)), RMul("1e-11", RMul(Size(M), RAdd(1, MaxAbs(v)))))) >>) \o
     When(ok /\ FinVec(e.pole, n), << Must("pole-of-polar-plane", Near(Tup(e.pole), v, RMul("1e-7", RAdd(1, MaxAbs(v))))) >>)

(* the section with a plane: new conic, change of coordinates, offset         *)
Section(M, p, e) ==
  LET n == Len(p) - 1
      nv == First(p, n)
      nn == Norm(nv)
      okc == Sym(e.conic, n)
      okt == FinMat(e.tr, n, n + 1)
      oko == FinVec(e.off, n)
  IN << Must("section-shape", okc /\ okt /\ oko) >> \o
     When(okc /\ okt /\ oko, <<
       LET o == Tup(e.off) IN
       Must("offset-is-nearest-point", RNear(RAdd(Dot(nv, o), p[n + 1]), 0, RMul(RMul("1e-9", nn), RAdd(1, MaxAbs(o))))
             /\ Near(Vmul(nn, o), Vmul(RMul(Dot(nv, o), RDiv(1, nn)), nv), RMul(RMul("1e-9", nn), RAdd(1, MaxAbs(o))))),
       LET T == Mat(e.tr) IN
       Must("section-axes-in-plane", \A i \in 1 .. n - 1 : RNear(Dot(First(T[i], n), nv), 0, RMul("1e-9", nn)) /\ RNear(T[i][n + 1], 0, "1e-12")),
       LET T == Mat(e.tr) IN
       Must("section-axes-orthonormal", Orthonormal([i \in 1 .. n - 1 |-> First(T[i], n)], "1e-9")),
       LET T == Mat(e.tr) IN
       Must("section-offset-column", Near(First(T[n], n), Tup(e.off), RMul("1e-12", RAdd(1, MaxAbs(Tup(e.off))))) /\ RNear(T[n][n + 1], 1, "1e-12")),
       Must("section-axes-as-asked", IF e.axes.s = <<-2>> THEN TRUE
             ELSE \A i \in 1 .. n - 1 : Near(First(Row(e.tr, i), n), Row(e.axes, i), "1e-12")),
       LET T == Mat(e.tr) IN
       Must("section-value", MSame(Mat(e.conic), MM(T, MM(M, Tr(T))), "1e-11")) >>)
Slice(e) == Section(Mat(e.m), Tup(e.plane), e)
Project(e) == Section(Mat(e.m), MV(Mat(e.m), AugV(Tup(e.v))), e)

(* half angles subtended by a sphere or by an axial ellipsoid                 *)
(* seen from distance d along its semiaxis a: tan = b / sqrt(d^2 - a^2)       *)
Subtend(e) ==
  LET b == Tup(e.b)
      k == Len(b)
      root == RSqrt(RSub(Sq(Num(e.d)), Sq(Num(e.a))))
      ok == (k = 1 /\ FinNum(e.out)) \/ FinVec(e.out, k)
      want(i) == IF e.tangent = 1 THEN RDiv(b[i], root) ELSE RAtan2(b[i], root)
  IN << Must("subtended-shape", ok) >> \o
     When(ok, << Must("angle-subtended", \A i \in 1 .. k : RNear(At(e.out, i), want(i), RMul("1e-7", RAdd(1, want(i))))) >>)

Make(e) ==
  LET a == Tup(e.a)
      n == Len(a)
      ok == Sym(e.out, n + 1)
      d(i) == IF i = n + 1 THEN R(-1) ELSE IF e.kind = "axes" THEN a[i] ELSE RDiv(1, Sq(a[i]))
  IN << Must("made-shape", ok) >> \o
     When(ok, << Must("made-from-" \o e.kind, \A i \in 1 .. n + 1 : \A j \in 1 .. n + 1 :
        RNear(El(e.out, i, j), IF i = j THEN d(i) ELSE 0, RMul("1e-12", IF i = j THEN RAbs(d(i)) ELSE 1))) >>)

(* type of a two-dimensional conic, or of an ellipsoid                        *)
Det2(Q) == RSub(RMul(Q[1][1], Q[2][2]), RMul(Q[1][2], Q[2][1]))
Kind(e) ==
  LET Q == Block(Mat(e.m), e.m.s[1] - 1)
      d == IF Len(Q) = 2 THEN Det2(Q) ELSE Det3(Q)
      s == IF Len(Q) = 2 THEN Sq(Size(Q)) ELSE RMul(Size(Q), Sq(Size(Q)))
      ell == RLt(RMul("1e-9", s), d)
      hyp == RLt(d, RMul("-1e-9", s))
  IN << Clause("elliptical", ell, e.kind = <<1, 0, 0>>),
        Clause("hyperbolic", hyp, e.kind = <<0, 1, 0>>),
        Clause("parabolic", Len(Q) = 2 /\ REq(Q[1][2], 0) /\ REq(Q[2][1], 0) /\ (REq(Q[1][1], 0) \/ REq(Q[2][2], 0)), e.kind = <<0, 0, 1>>) >>
(* exact counterparts for symbolic matrices: the polar plane and its (signed)  *)
(* distance from the origin                                                    *)
SymPolar(e) == LET w == MV(Mat(e.m), AugV(Tup(e.v))) IN
  << Must("symbolic-polar", FinVec(e.out, Len(w))) >> \o
  When(FinVec(e.out, Len(w)), << Must("symbolic-polar-plane", Near(Tup(e.out), w, "1e-9")) >>)
Distance(e) == LET w == MV(Mat(e.m), AugV(Tup(e.v)))
                   n == Len(w) - 1
               IN << Must("origin-distance", FinNum(e.out) /\ RNear(RMul(Num(e.out), Norm(First(w, n))), w[n + 1], "1e-9")) >>
C17(e) == CASE e.ev = "step" -> Step(e) [] e.ev = "center" -> Center(e) [] e.ev = "contains" -> Contains(e)
            [] e.ev = "axes" -> Axes(e) [] e.ev = "dual" -> Dual(e) [] e.ev = "polar" -> Polar(e)
            [] e.ev = "slice" -> Slice(e) [] e.ev = "project" -> Project(e) [] e.ev = "subtend" -> Subtend(e)
            [] e.ev = "make" -> Make(e) [] e.ev = "kind" -> Kind(e)
            [] e.ev = "sympolar" -> SymPolar(e) [] e.ev = "distance" -> Distance(e)
=============================================================================
