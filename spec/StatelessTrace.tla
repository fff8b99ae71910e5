--------------------------- MODULE StatelessTrace ---------------------------
(* The trace machine for events that are judged one by one.                 *)
EXTENDS TraceBase
CONSTANT Clauses(_)
VARIABLES l, cov

Init == l = 1 /\ cov = [x \in {} |-> 0]
Next == /\ l <= Len(Trace)
        /\ LET cl == TLCEval(IF Trace[l].ev = "crash" THEN <<Must("crash", FALSE)>>
                         ELSE Clauses(Trace[l]))
           IN Judge(l, cl) /\ cov' = TLCEval(Bump(cov, cl, 1)) /\ Finish(l, cov')
        /\ l' = l + 1
Spec == Init /\ [][Next]_<<l, cov>>
Accepted == TLCGet("stats").diameter - 1 = Len(Trace)
=============================================================================
