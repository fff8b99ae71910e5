------------------------------ MODULE TraceC13 ------------------------------
(* C13: a notebook page hands the viewer exactly the data that was given.     *)
EXTENDS StatelessTrace, Embed

IdentChar(c) == (c >= 48 /\ c <= 57) \/ (c >= 65 /\ c <= 90) \/ (c >= 97 /\ c <= 122) \/ c \in {45, 95}
(* a selector "#ident" *)
Selector(t) == IF Len(t) < 2 THEN FALSE
               ELSE t[1] = 35 /\ (\A i \in 2 .. Len(t) : IdentChar(t[i])) /\ ~ (t[2] >= 48 /\ t[2] <= 57)
Exact(t, i, w) == IF i + Len(w) - 1 > Len(t) THEN FALSE ELSE \A k \in 1 .. Len(w) : t[i + k - 1] = w[k]
Occurs(t, w) == \E i \in {j \in DOMAIN t : t[j] = w[1]} : Exact(t, i, w)
Attribute(id, q) == <<105, 100, 61, q>> \o id \o <<q>>       \* id='...'

(* the viewer is loaded by the first call, once                               *)
Library(e) == << Must("viewer-found", e.raised = 0),
                 Must("viewer-loaded-once", e.got = (IF e.k = 0 THEN <<e.want>> ELSE <<>>)) >>
Page(e) ==
  << Must("does-not-fail", e.raised = 0), Must("one-display", e.shown = 1) >> \o
  When(e.raised = 0 /\ e.shown = 1,
    LET h == e.html
        span == TLCEval(ScriptSpan(h))
    IN << Must("script-closed-where-written", ScriptText(h) = e.script),
          Must("script-not-empty", span # <<0, 0>>) >> \o
       When(span # <<0, 0>>,
         LET before == SubSeq(h, 1, span[1] - 1)
             after == SubSeq(h, span[2], Len(h))
         IN << Must("nothing-spills-out", Len(after) <= 12 /\ \A i \in DOMAIN after : after[i] \notin {123, 91, 34, 92}),
               Must("script-runs", e.ok = 1),
               Must("viewer-called-once", e.calls = 1) >> \o
            When(e.ok = 1 /\ e.calls = 1,
              << Must("data-identical", e.data = e.want),
                 Must("selector-valid", Selector(e.sel)),
                 Must("own-element", e.fresh = 1) >> \o
              When(Selector(e.sel),
                LET id == SubSeq(e.sel, 2, Len(e.sel)) IN
                << Must("element-exists", Occurs(before, Attribute(id, 39)) \/ Occurs(before, Attribute(id, 34))) >>))))
C13(e) == IF e.ev = "library" THEN Library(e) ELSE Page(e)
=============================================================================
