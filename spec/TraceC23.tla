------------------------------ MODULE TraceC23 ------------------------------
(* C23: the viewer's page.                                                    *)
EXTENDS StatefulTrace, Page, Attitude

C23Begin(e) == [data |-> e.data, s |-> [Start EXCEPT !.whole = e.whole]]
C23Step(st0, e) == IF e.act = "open" \/ e.ran = 0 THEN st0
                   ELSE [st0 EXCEPT !.s = After(st0.data, st0.s, e.act, e.uid)]
Names(q) == [i \in DOMAIN q |-> q[i].uid]
(* each named once, with the classes of a group or of a member *)
Dressed(D, q) == \A i \in DOMAIN q : Has(D, q[i].uid) =>
  LET d == Of(D, q[i].uid) IN q[i].group = d.group /\ q[i].member = IF d.owner = "" THEN 0 ELSE 1
(* bands of planes known to worse than 45 degrees are not drawn; poles always *)
Banded(D, q) == \A i \in DOMAIN q : Has(D, q[i].uid) => q[i].errors = IF Of(D, q[i].uid).wide = 1 THEN 0 ELSE 1
All1(q) == \A i \in DOMAIN q : q[i].errors = 1
Rounded(t, k, x) == RLe(RAbs(RSub(At(t, k), x)), "0.0500001")
C23Verdict(st0, e) ==
  LET t == C23Step(st0, e)
      D == t.data
      s == t.s
      d == IF s.hov = <<>> THEN D[1] ELSE Of(D, s.hov[1])
      n == IF RLt(At(d.numbers, 3), "0.01") /\ RLt(At(d.numbers, 4), "0.01") THEN 2 ELSE 4
  IN << Must("list-shows-what-it-should", Names(e.list) = Listed(D, s)),
        Must("list-marks-selected", \A i \in DOMAIN e.list : e.list[i].selected = IF In(s.sel, e.list[i].uid) THEN 1 ELSE 0),
        Must("list-marks-pointed-at", \A i \in DOMAIN e.list : e.list[i].hovered = IF In(s.hov, e.list[i].uid) THEN 1 ELSE 0),
        Must("chart-planes", Names(e.planes) = Planes(D, s) /\ Dressed(D, e.planes) /\ Banded(D, e.planes)),
        Must("chart-poles", Names(e.poles) = Poles(D, s) /\ Dressed(D, e.poles) /\ All1(e.poles)),
        Must("chart-pointed-at", Names(e.hovplanes) = LitPlanes(D, s) /\ Names(e.hovpoles) = LitPoles(D, s)
                                  /\ Dressed(D, e.hovplanes) /\ Dressed(D, e.hovpoles) /\ All1(e.hovplanes) /\ All1(e.hovpoles)),
        Must("panel-names-pointed-at", e.panel = Described(s) /\ e.members = Len(d.members) * (IF s.hov = <<>> THEN 0 ELSE 1)),
        Clause("panel-values", s.hov # <<>>,
               FinVec(e.numbers, n) /\ \A k \in 1 .. n : Rounded(e.numbers, k, At(d.numbers, k))),
        Clause("panel-labels", s.hov # <<>>,
               e.labels = SubSeq(<<"Strike", "Dip", "Min", "Max">>, 1, n) /\ e.none = IF n = 2 THEN 1 ELSE 0),
        Must("copied-text", e.copy = Copied(s)),
        Must("data-unchanged", e.same = 1) >>
=============================================================================
