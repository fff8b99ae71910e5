------------------------------ MODULE TraceC07 ------------------------------
(* C07: queries are pure.  An event is the last query of a history: what a    *)
(* fresh object answers, what the object with the history answers, and        *)
(* fingerprints of everything the object holds and of its inputs.             *)
EXTENDS StatelessTrace

SameAnswer(a, b) ==
  /\ a.s = b.s
  /\ a.s[1] = -1 => a.e = b.e
  /\ Len(a.v) = Len(b.v)
  /\ VNear(a.v, b.v, RMul("1e-9", RAdd("1e-300", VMaxAbs(a.v))))
     \/ a.v = b.v
C07(e) ==
  CASE e.ev = "query" ->
       << Must("answer-independent-of-history", e.fresh.t = e.got.t /\ SameAnswer(e.fresh.a, e.got.a)),
          Must("object-unchanged", e.before = e.after),
          Must("inputs-unchanged", e.inbefore = e.inafter),
          Must("linked-objects-unchanged", e.linkbefore = e.linkafter) >>
    [] e.ev = "detached" ->
       << Must("mapping-detached-from-fit", e.before = e.after),
          Must("mapping-reproducible", e.first = e.second) >>
    [] e.ev = "built" -> << Must("construction-leaves-input", e.inbefore = e.inafter) >>
=============================================================================
