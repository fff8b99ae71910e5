--------------------------- MODULE StatefulTrace ---------------------------
(* The trace machine for specifications with abstract state: Begin is the   *)
(* state a scenario starts in, Step the state after an event, Verdict the   *)
(* clauses that judge an event in the state before it.  An event "begin"    *)
(* resets the state, so that scenarios are independent.                     *)
EXTENDS TraceBase
CONSTANTS Verdict(_, _), Step(_, _), Begin(_)
VARIABLES l, cov, st

Init == l = 1 /\ cov = [x \in {} |-> 0] /\ st = <<>>
Next == /\ l <= Len(Trace)
        /\ LET e == Trace[l]
               cl == TLCEval(IF e.ev = "crash" THEN <<Must("crash", FALSE)>>
                             ELSE IF e.ev = "begin" THEN <<>> ELSE Verdict(st, e))
           IN /\ Judge(l, cl)
              /\ st' = TLCEval(IF e.ev = "crash" THEN st
                               ELSE IF e.ev = "begin" THEN Begin(e) ELSE Step(st, e))
              /\ cov' = TLCEval(Bump(cov, cl, 1)) /\ Finish(l, cov')
        /\ l' = l + 1
Spec == Init /\ [][Next]_<<l, cov, st>>
Accepted == TLCGet("stats").diameter - 1 = Len(Trace)
=============================================================================
