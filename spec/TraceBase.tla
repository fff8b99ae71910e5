----------------------------- MODULE TraceBase -----------------------------
(* Validation of a recorded trace, one line per call of the real code.  A   *)
(* line is judged by a sequence of clauses <<name, premise, holds>>.  The   *)
(* verdict is total: every line is judged, every violated clause is named.  *)
EXTENDS Linear, TLC, Json, IOUtils

Trace == ndJsonDeserialize(IOEnv.TRACE)

Clause(name, premise, holds) == <<name, premise, IF premise THEN holds ELSE TRUE>>
Must(name, holds) == Clause(name, TRUE, holds)
(* clauses that can be evaluated only where a well-formedness condition holds *)
When(cond, clauses) == IF cond THEN clauses ELSE <<>>

RECURSIVE Bump(_, _, _)
Bump(cov, cl, i) ==
  IF i > Len(cl) THEN cov
  ELSE Bump(IF cl[i][2]
            THEN (cl[i][1] :> (IF cl[i][1] \in DOMAIN cov THEN cov[cl[i][1]] + 1 ELSE 1)) @@ cov
            ELSE cov, cl, i + 1)

Judge(line, cl) ==
  \A i \in DOMAIN cl : IF cl[i][3] THEN TRUE ELSE PrintT(<<"FAIL", line, cl[i][1]>>)

Finish(line, cov) ==
  IF line < Len(Trace) THEN TRUE ELSE PrintT(<<"DONE", line, ToJson(cov)>>)
=============================================================================
