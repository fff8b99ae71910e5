------------------------------ MODULE TraceC14 ------------------------------
(* C14: error girdles of planes.                                             *)
EXTENDS StatelessTrace, Girdle

Diag(m) == <<El(m, 1, 1), El(m, 2, 2), El(m, 3, 3)>>
Read(lay, lon, lat) ==
  CASE lay = "traditional" -> Traditional(lon, lat)
    [] lay = "natural" -> Natural(lon, lat)
    [] lay = "traditional-degrees" -> Traditional(RRad(lon), RRad(lat))
    [] lay = "natural-degrees" -> Natural(RRad(lon), RRad(lat))
    [] lay = "patch" -> Traditional(RNeg(lon), RNeg(lat))
Tol == "1e-7"
(* out is the sheet, n points from k0 on, forwards (dir = 1) or backwards     *)
IsSheet(out, k0, n, dir, lay, A, d, sheet, level) ==
  \A k \in 1 .. n :
    LET row == k0 + k
        kk == IF dir = 1 THEN k ELSE n + 1 - k
    IN Near(Read(lay, El(out, row, 1), El(out, row, 2)), SheetPoint(A, d, sheet, level, Param(kk, n)), Tol)

Sheet(e) ==
  << Must("girdle-shape", FinMat(e.out, e.n, 2)) >> \o
  When(FinMat(e.out, e.n, 2),
    << Must("girdle-" \o e.sheet,
         IsSheet(e.out, 0, e.n, 1, e.lay, Mat(e.axes), Diag(e.cov), e.sheet, Num(e.level))) >>)

(* a pair of rings: a patch of the stereonet or a polygon with a hole; rings   *)
(* may be closed once more                                                    *)
Rings(e) ==
  LET A == Mat(e.axes)
      d == Diag(e.cov)
      n == e.n
      ok(r) == FinMat(r, n, 2) \/ FinMat(r, n + 1, 2)
      along(r, sheet, dir) == IsSheet(r, 0, n, dir, e.lay, A, d, sheet, R(1))
      is(r, sheet) == \E dir \in {1, -1} : along(r, sheet, dir)
  IN << Must("band-shape", ok(e.outer) /\ ok(e.inner) /\ e.rings = 2) >> \o
     When(ok(e.outer) /\ ok(e.inner),
       << Must("band-between-upper-and-lower",
               (is(e.outer, "upper") /\ is(e.inner, "lower"))),
          \* rings of one path run against each other, or their inside would be filled
          Clause("rings-run-against-each-other", e.lay = "patch",
               \E dir \in {1, -1} : along(e.outer, "upper", dir) /\ along(e.inner, "lower", -dir)) >>)
C14(e) == CASE e.ev = "sheet" -> Sheet(e) [] e.ev = "rings" -> Rings(e)
            [] e.ev = "keys" -> << Must("levels-as-asked", e.got = e.want) >>
=============================================================================
