------------------------------ MODULE TraceC20 ------------------------------
(* C20: elevations read out of a raster.  A raster is logged as its affine    *)
(* transform tr (a, b, c, d, e, f), and its elevations z with NaN where there *)
(* are none.  Pixel (i, j) covers [j, j+1] x [i, i+1] of the pixel plane.      *)
EXTENDS StatelessTrace, FiniteSets

Tol == "1e-6"
H(e) == e.z.s[1]
W(e) == e.z.s[2]
Z(e, i, j) == El(e.z, i + 1, j + 1)                          \* from 0
World(t, u, v) == << RAdd(RAdd(RMul(At(t, 1), u), RMul(At(t, 2), v)), At(t, 3)),
                     RAdd(RAdd(RMul(At(t, 4), u), RMul(At(t, 5), v)), At(t, 6)) >>
Pixel(t, x, y) ==
  LET det == RSub(RMul(At(t, 1), At(t, 5)), RMul(At(t, 2), At(t, 4)))
      dx == RSub(x, At(t, 3))
      dy == RSub(y, At(t, 6))
  IN << RDiv(RSub(RMul(At(t, 5), dx), RMul(At(t, 2), dy)), det),
        RDiv(RSub(RMul(At(t, 1), dy), RMul(At(t, 4), dx)), det) >>

(* ---- polygons: rings of the pixel plane, even-odd rule ------------------- *)
Ring(e, r) == TLCEval([k \in 1 .. r.s[1] |-> Pixel(e.tr, El(r, k, 1), El(r, k, 2))])
Ahead(g, k) == g[(k % Len(g)) + 1]
(* does the ray from p towards +x cross the edge a-b                          *)
Crosses(p, a, b) ==
  /\ RLe(a[2], p[2]) # RLe(b[2], p[2])
  /\ RLt(p[1], RAdd(a[1], RDiv(RMul(RSub(p[2], a[2]), RSub(b[1], a[1])), RSub(b[2], a[2]))))
Hits(p, g) == Cardinality({k \in 1 .. Len(g) : Crosses(p, g[k], Ahead(g, k))})
RECURSIVE AllHits(_, _, _)
AllHits(p, gs, i) == IF i > Len(gs) THEN 0 ELSE Hits(p, gs[i]) + AllHits(p, gs, i + 1)
Inside(p, gs) == AllHits(p, gs, 1) % 2 = 1
(* squared distance from p to the segment a-b                                 *)
Dist2(p, a, b) ==
  LET ab == Vsub(b, a)
      l2 == Dot(ab, ab)
      t == IF RLe(l2, 0) THEN R(0) ELSE RMax(0, RMin(1, RDiv(Dot(Vsub(p, a), ab), l2)))
      q == Vsub(p, Vadd(a, Vmul(t, ab)))
  IN Dot(q, q)
Edge(p, gs) == \E i \in DOMAIN gs : \E k \in 1 .. Len(gs[i]) : RLt(Dist2(p, gs[i][k], Ahead(gs[i], k)), "1e-6")
Centre(i, j) == << RAdd(j, "0.5"), RAdd(i, "0.5") >>
Area(e) ==
  LET gs == TLCEval([i \in 1 .. Len(e.rings) |-> Ring(e, e.rings[i])])
      pix == (0 .. H(e) - 1) \X (0 .. W(e) - 1)
      valid == {p \in pix : RFinite(Z(e, p[1], p[2]))}
      inside == TLCEval({p \in valid : Inside(Centre(p[1], p[2]), gs)})
      near == TLCEval({p \in valid : Edge(Centre(p[1], p[2]), gs)})
      n == e.out.s[1]
      ok == Len(e.out.s) = 2 /\ n >= 0 /\ FinMat(e.out, n, 3)
      at == TLCEval([k \in 1 .. n |-> Pixel(e.tr, El(e.out, k, 1), El(e.out, k, 2))])
      cell == TLCEval([k \in 1 .. n |-> <<RInt(RFloor(at[k][2])), RInt(RFloor(at[k][1]))>>])
  IN << Must(e.via \o "-shape", ok) >> \o
     When(ok, <<
       Must(e.via \o "-at-pixel-centres", \A k \in 1 .. n : Near(at[k], Centre(cell[k][1], cell[k][2]), "1e-5")),
       Must(e.via \o "-pixels-once", Cardinality({cell[k] : k \in 1 .. n}) = n),
       Must(e.via \o "-only-pixels-inside", \A k \in 1 .. n : cell[k] \in inside \cup near),
       Must(e.via \o "-all-pixels-inside", \A p \in inside \ near : \E k \in 1 .. n : cell[k] = p) >>) \o
     When(ok /\ \A k \in 1 .. n : cell[k] \in pix, <<
       Must(e.via \o "-elevations", \A k \in 1 .. n : REq(El(e.out, k, 3), Z(e, cell[k][1], cell[k][2]))) >>)

(* ---- interpolation ------------------------------------------------------- *)
ClampR(a, hi) == RMax(0, RMin(a, hi))
(* the four neighbours of the point (u, v) of the pixel plane with weights    *)
Stencil(e, u, v) ==
  LET a == ClampR(RSub(u, "0.5"), W(e) - 1)
      b == ClampR(RSub(v, "0.5"), H(e) - 1)
      j == RInt(RFloor(a))
      i == RInt(RFloor(b))
      f == RSub(a, j)
      g == RSub(b, i)
  IN { c \in { <<i, j, RMul(RSub(1, g), RSub(1, f)), 1>>, <<i, j + 1, RMul(RSub(1, g), f), 2>>,
               <<i + 1, j, RMul(g, RSub(1, f)), 3>>, <<i + 1, j + 1, RMul(g, f), 4>> } :
       c[1] < H(e) /\ c[2] < W(e) }
RECURSIVE Weigh(_, _)
Weigh(e, S) == IF S = {} THEN R(0)
               ELSE LET c == CHOOSE c \in S : TRUE IN RAdd(RMul(c[3], Z(e, c[1], c[2])), Weigh(e, S \ {c}))
Blank(e, S) == {c \in S : ~RFinite(Z(e, c[1], c[2]))}
Light(S) == {c \in S : RLt(c[3], "1e-5")}
(* 1: an elevation, -1: none, 0: a blank pixel of no weight: either           *)
Close(e, u, v) == {c \in (0 .. H(e) - 1) \X (0 .. W(e) - 1) :
  /\ RLt(RAbs(RSub(ClampR(RSub(u, "0.5"), W(e) - 1), c[2])), "1.00001")
  /\ RLt(RAbs(RSub(ClampR(RSub(v, "0.5"), H(e) - 1), c[1])), "1.00001")}
Status(e, u, v) == LET S == Stencil(e, u, v)
                       B == Blank(e, S)
                   IN IF B \ Light(S) # {} THEN -1 ELSE IF Blank(e, Close(e, u, v)) = {} THEN 1 ELSE 0
Bilinear(e, u, v) == Weigh(e, Stencil(e, u, v))
RECURSIVE TopFrom(_, _)
TopFrom(z, i) == IF i > VLen(z) THEN R(1)
                 ELSE RMax(IF RFinite(VGet(z, i)) THEN RAbs(VGet(z, i)) ELSE 0, TopFrom(z, i + 1))
Top(e) == TopFrom(e.z.v, 1)
GoodZ(e, u, v, z, top) == LET s == Status(e, u, v) IN
  \/ s >= 0 /\ RFinite(z) /\ (s = 0 \/ RNear(z, Bilinear(e, u, v), RMul(Tol, top)))
  \/ s <= 0 /\ RNaN(z)
(* nearest pixel; ties may go either way                                      *)
Closest(e, u, v) ==
  {c \in (0 .. H(e) - 1) \X (0 .. W(e) - 1) :
     LET p == Centre(c[1], c[2])
         in == << ClampR(RSub(u, "0.5"), W(e) - 1), ClampR(RSub(v, "0.5"), H(e) - 1) >>
     IN RLe(RAbs(RSub(RAdd(in[1], "0.5"), p[1])), "0.500001") /\ RLe(RAbs(RSub(RAdd(in[2], "0.5"), p[2])), "0.500001")}
Same(a, b) == REq(a, b) \/ (RNaN(a) /\ RNaN(b))
Interp(e) ==
  LET n == e.pts.s[1]
      ok == IsMat(e.out, n, 3)
      top == Top(e)
      U(k) == El(e.pts, k, 1)
      V(k) == El(e.pts, k, 2)
  IN << Must("interpolated-shape", ok), Must("geometry-type-kept", e.kept = 1) >> \o
     When(ok, <<
       Must("interpolated-in-place", \A k \in 1 .. n : REq(El(e.out, k, 1), U(k)) /\ REq(El(e.out, k, 2), V(k))),
       Clause("nearest-pixel", e.order = 0, \A k \in 1 .. n : \E c \in Closest(e, U(k), V(k)) : Same(El(e.out, k, 3), Z(e, c[1], c[2]))),
       Clause("bilinear", e.order = 1, \A k \in 1 .. n : GoodZ(e, U(k), V(k), El(e.out, k, 3), top)),
       Clause("spline-through-pixels", e.order = 2, \A k \in 1 .. n : \A c \in Closest(e, U(k), V(k)) :
           Near(<<U(k), V(k)>>, Centre(c[1], c[2]), "1e-9") => RNear(El(e.out, k, 3), Z(e, c[1], c[2]), RMul(Tol, top))) >>)

(* ---- lines ---------------------------------------------------------------- *)
Starts(parts, i) == IF i = 1 THEN 0 ELSE parts[i - 1]     \* parts: cumulative counts
(* out rows k.. walk along the vertices from j to last, at most gap apart;     *)
(* the value is the row after the last vertex, or 0                            *)
RECURSIVE Walk(_, _, _, _, _, _, _)
Walk(P, V, k, j, last, t, gap) ==
  IF k > Len(P) THEN 0
  ELSE IF j = last THEN 0
  ELSE LET ab == Vsub(V[j + 1], V[j])
           len == Norm(ab)
           s == IF RLt(0, len) THEN RDiv(Dot(Vsub(P[k], V[j]), ab), len) ELSE R(0)
           on == RLt(Dist2(P[k], V[j], V[j + 1]), "1e-10")
           fits == on /\ RLe(t, RAdd(s, "1e-6")) /\ RLe(RSub(s, t), RAdd(gap, "1e-6"))
       IN IF ~fits THEN 0
          ELSE IF Near(P[k], V[j + 1], "1e-5")
               THEN IF j + 1 = last THEN k + 1 ELSE Walk(P, V, k + 1, j + 1, last, R(0), gap)
               ELSE Walk(P, V, k + 1, j, last, s, gap)
RECURSIVE Path(_, _, _, _, _, _)
Path(P, V, parts, i, k, gap) ==
  IF i > Len(parts) THEN k = Len(P) + 1
  ELSE LET a == Starts(parts, i) + 1
           b == parts[i]
       IN IF k > Len(P) THEN FALSE
          ELSE IF ~Near(P[k], V[a], "1e-5") THEN FALSE
          ELSE LET m == IF a = b THEN k + 1 ELSE Walk(P, V, k + 1, a, b, R(0), gap)
               IN IF m = 0 THEN FALSE ELSE Path(P, V, parts, i + 1, m, gap)
Line(e) ==
  LET n == e.out.s[1]
      V == TLCEval([k \in 1 .. e.pts.s[1] |-> Pixel(e.tr, El(e.pts, k, 1), El(e.pts, k, 2))])
      ok == Len(e.out.s) = 2 /\ n >= 0 /\ IsMat(e.out, n, 3)
      P == TLCEval([k \in 1 .. n |-> Pixel(e.tr, El(e.out, k, 1), El(e.out, k, 2))])
      top == Top(e)
      st == TLCEval([k \in 1 .. Len(V) |-> Status(e, V[k][1], V[k][2])])
      keep == SelectSeq([k \in 1 .. Len(V) |-> k], LAMBDA k : st[k] = 1)
      clear == \A k \in 1 .. Len(V) : st[k] # 0
  IN << Must(e.via \o "-shape", ok) >> \o
     When(ok, <<
       Clause(e.via \o "-vertices", e.gap = 0 /\ e.drop = 0, Len(P) = Len(V) /\ \A k \in 1 .. Len(V) : Near(P[k], V[k], "1e-5")),
       Clause(e.via \o "-without-blanks", e.gap = 0 /\ e.drop = 1 /\ clear, Len(P) = Len(keep) /\ \A k \in 1 .. Len(keep) : Near(P[k], V[keep[k]], "1e-5")),
       Clause(e.via \o "-subdivided", e.gap > 0, Path(P, V, e.parts, 1, 1, RDiv(e.gap, 4))),
       Must(e.via \o "-elevations", \A k \in 1 .. n : GoodZ(e, P[k][1], P[k][2], El(e.out, k, 3), top)),
       Clause(e.via \o "-clean", e.drop = 1, Finite(e.out)) >>)

(* ---- helpers --------------------------------------------------------------- *)
Trim(e) ==
  LET sel == {c \in (1 .. e.mask.s[1]) \X (1 .. e.mask.s[2]) : ~REq(El(e.mask, c[1], c[2]), 0)}
      rows == {c[1] : c \in sel}
      cols == {c[2] : c \in sel}
      lo(S) == CHOOSE a \in S : \A b \in S : a <= b
      hi(S) == CHOOSE a \in S : \A b \in S : b <= a
      h == hi(rows) - lo(rows) + 1
      w == hi(cols) - lo(cols) + 1
      ok == FinVec(e.off, 2) /\ FinMat(e.out, h, w)
  IN IF sel = {} THEN << Must("empty-mask", Len(e.out.s) = 2 /\ VLen(e.out.v) = 0) >>
     ELSE << Must("bounding-rectangle", ok) >> \o
       When(ok, << Must("mask-offset", REq(At(e.off, 1), lo(rows) - 1) /\ REq(At(e.off, 2), lo(cols) - 1)),
                   Must("mask-content", \A i \in 1 .. h : \A j \in 1 .. w :
                      REq(El(e.out, i, j), El(e.mask, lo(rows) - 1 + i, lo(cols) - 1 + j))) >>)
Clean(e) ==
  LET m == e.x.s[2]
      keep == SelectSeq([k \in 1 .. e.x.s[1] |-> k], LAMBDA k : \A j \in 1 .. m : ~RNaN(El(e.x, k, j)))
      ok == IsMat(e.out, Len(keep), m)
  IN << Must("clean-rows", ok), Must("clean-input-unchanged", e.same = 1) >> \o
     When(ok, << Must("clean-content", \A k \in 1 .. Len(keep) : \A j \in 1 .. m : REq(El(e.out, k, j), El(e.x, keep[k], j))) >>)
C20(e) == CASE e.ev = "area" -> Area(e) [] e.ev = "line" -> Line(e) [] e.ev = "interp" -> Interp(e)
            [] e.ev = "trim" -> Trim(e) [] e.ev = "clean" -> Clean(e)
=============================================================================
