------------------------------ MODULE TraceC25 ------------------------------
(* C25: the plotter's sheet.                                                  *)
EXTENDS StatefulTrace, Sheet

C25Begin(e) == Default
C25Step(s, e) == TLCEval(Result(s, e.o, e.edits))
Charted(q, rows) ==
  LET p == TLCEval(Plotted(rows))
  IN Len(q) = Len(p) /\ \A i \in DOMAIN q : i \in DOMAIN p =>
       /\ FinVec(q[i].numbers, 5) /\ \A k \in 1 .. 5 : REq(At(q[i].numbers, k), Value(p[i][k]))
       /\ q[i].color = IF p[i][6] \in Colors THEN p[i][6] ELSE ""
       /\ q[i].paths = 1
C25Verdict(s, e) ==
  LET rows == C25Step(s, e)
  IN << Must("sheet-holds-what-was-entered", e.rows = rows),
        Must("sheet-shows-what-it-holds", e.shown = e.rows),
        Must("sheet-marks-cells", Len(e.marks) = Len(rows) /\ \A i \in DOMAIN rows : i \in DOMAIN e.marks => e.marks[i] = [k \in 1 .. 6 |-> Mark(k, rows[i][k])]),
        Must("complete-rows-plotted", Len(e.charts) = 2 /\ \A c \in DOMAIN e.charts : Charted(e.charts[c], rows)) >>
=============================================================================
