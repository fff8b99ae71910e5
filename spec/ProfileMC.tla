------------------------------ MODULE ProfileMC ------------------------------
(* The side view as a machine: the elements of the view are joined to the     *)
(* planes by position, redrawn and sorted from back to front at every turn.   *)
(* Whatever the history of turns, every plane is shown once, from the current *)
(* viewpoint, none in front of one that is nearer.                            *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, CSV, IOUtils
CONSTANTS Depth, NPlanes, Views
VARIABLES els, view, hist, place

Circle == << <<5,0>>, <<4,3>>, <<3,4>>, <<0,5>>, <<-3,4>>, <<-5,0>>, <<-4,-3>>, <<0,-5>>, <<3,-4>> >>
Places == << << <<0,0>>, <<10,5>>, <<-4,7>>, <<6,-8>> >>, << <<0,1>>, <<0,2>>, <<0,3>>, <<1,3>> >>, << <<5,5>>, <<5,5>>, <<-1,2>>, <<3,0>> >> >>
Z(i, v) == Places[place][i][1] * Circle[v][2] - Places[place][i][2] * Circle[v][1]
(* stable insertion: after all elements that are not nearer *)
RECURSIVE Insert(_, _)
Insert(s, e) == IF s = <<>> THEN <<e>> ELSE IF s[1].z <= e.z THEN <<s[1]>> \o Insert(Tail(s), e) ELSE <<e>> \o s
RECURSIVE Sorted(_)
Sorted(s) == IF s = <<>> THEN <<>> ELSE Insert(Sorted(SubSeq(s, 1, Len(s) - 1)), s[Len(s)])
Drawn(v) == Sorted([i \in 1 .. NPlanes |-> [plane |-> i, view |-> v, z |-> Z(i, v)]])
Init == place \in DOMAIN Places /\ \E v \in Views : view = v /\ hist = <<v>> /\ els = Drawn(v)
(* joined by position: element k takes plane k, is redrawn, then all are sorted *)
Turn(v) == /\ Len(hist) < Depth /\ view' = v /\ hist' = Append(hist, v) /\ place' = place
           /\ els' = Sorted([k \in 1 .. Len(els) |-> [plane |-> k, view |-> v, z |-> Z(k, v)]])
Next == \E v \in Views : Turn(v)
Spec == Init /\ [][Next]_<<els, view, hist, place>>
Inv == /\ {els[k].plane : k \in DOMAIN els} = 1 .. NPlanes /\ Len(els) = NPlanes
       /\ \A k \in DOMAIN els : els[k].view = view
       /\ \A j, k \in DOMAIN els : j < k => els[j].z <= els[k].z
Emit == Len(hist) = Depth => CSVWrite("%1$s", <<ToJson([place |-> Places[place], n |-> NPlanes, turns |-> [k \in DOMAIN hist |-> Circle[hist[k]]]])>>, IOEnv.CASES)
=============================================================================
