------------------------------- MODULE UidMC -------------------------------
(* Identifiers of planes: a function of the fit alone, injective on distinct  *)
(* fits, and stable under everything that may happen to a plane.  A plane is  *)
(* [content, off, grouped, process]; an operation makes another presentation  *)
(* of the same fit or of a different one.                                     *)
EXTENDS Integers, Sequences, TLC, Json, CSV, IOUtils
CONSTANTS Contents, Ops, MaxOps
VARIABLES planes, hist

Uid(c) == <<"uid", c>>
New(c) == [content |-> c, uid |-> Uid(c), off |-> 0, grouped |-> 0, born |-> 0]
Init == planes = <<New(1)>> /\ hist = <<>>
Last == planes[Len(planes)]
Apply(p, op) ==
  CASE op = "disable" -> [p EXCEPT !.off = 1]
    [] op = "group" -> [p EXCEPT !.grouped = 1]
    [] op = "refit" -> New(p.content)
    [] op = "process" -> [New(p.content) EXCEPT !.born = 1]
    [] OTHER -> p
Do == \E op \in Ops : planes' = [planes EXCEPT ![Len(planes)] = Apply(@, op)] /\ hist' = Append(hist, op)
Other == /\ Len(planes) < 2
         /\ \E c \in Contents : planes' = Append(planes, New(c)) /\ hist' = Append(hist, "other" \o ToString(c))
Next == Len(hist) < MaxOps /\ (Do \/ Other)
Spec == Init /\ [][Next]_<<planes, hist>>
Stable == \A i \in DOMAIN planes : planes[i].uid = Uid(planes[i].content)
Distinct == \A i, j \in DOMAIN planes : planes[i].content # planes[j].content => planes[i].uid # planes[j].uid
Emit == hist # <<>> => CSVWrite("%1$s", <<ToJson([hist |-> hist])>>, IOEnv.CASES)
=============================================================================
