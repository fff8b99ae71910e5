------------------------------- MODULE NetMC -------------------------------
(* All short histories of two nets on one page.                              *)
EXTENDS Net, Integers, Sequences, FiniteSets, TLC, Json, CSV, IOUtils
CONSTANTS Depth
VARIABLES s, hist, last

World(k) == IF k = 0 THEN <<NewNet, NewNet>>
            ELSE [i \in 1 .. 2 |-> Done(Done(NewNet, "labels", <<>>), "mount", <<>>)]
Opening(k) == IF k = 0 THEN <<>> ELSE << <<0, "labels">>, <<1, "labels">>, <<0, "mount">>, <<1, "mount">> >>
(* operations with their numbers *)
Ops == { <<"size", 500>>, <<"margin", 45>>, <<"clip", 30>>, <<"rotate", 30, 20>>, <<"rotate", -150, 100>>, <<"center", -60, -72>>, <<"mount">>, <<"planes">>, <<"ellipses">>, <<"labels">>,
         <<"down", 10, 10>>, <<"draw">> }
Pointer == { <<"move", 70, -50>>, <<"move", -200, 400>>, <<"up", 100, 31>> }
Nums(o) == [i \in 1 .. Len(o) - 1 |-> R(o[i + 1])]
Fits(n, o) == CASE o[1] = "mount" -> n.up = 0
                [] o[1] \in {"planes", "ellipses", "down", "draw"} -> n.up = 1
                [] o[1] = "labels" -> n.labels = 0
                [] o[1] = "clip" -> TRUE
                [] OTHER -> TRUE
Init == \E k \in 0 .. 1 : s = World(k) /\ hist = Opening(k) /\ last = <<1, "open">>
Length == Len(hist) - (IF hist # <<>> /\ hist[1] = <<0, "labels">> /\ Len(hist) > 3 /\ hist[4] = <<1, "mount">> THEN 4 ELSE 0)
Touch(i, o) == /\ Length < Depth /\ Fits(s[i], o)
               /\ s' = [s EXCEPT ![i] = Done(s[i], o[1], IF o[1] \in {"planes", "ellipses"} THEN <<Len(hist)>> ELSE Nums(o))]
               /\ hist' = Append(hist, <<i - 1>> \o o) /\ last' = <<i>> \o o
Point(o) == /\ Length < Depth
            /\ s' = [i \in 1 .. 2 |-> Moved(s[i], o[1], Nums(o))]
            /\ hist' = Append(hist, <<0>> \o o) /\ last' = <<0>> \o o
Next == (\E i \in 1 .. 2, o \in Ops : Touch(i, o)) \/ (\E o \in Pointer : Point(o))
Spec == Init /\ [][Next]_<<s, hist, last>>
Inv == /\ \A i \in 1 .. 2 : RLe(0, s[i].scale)
       (* a drag never tips a net over: latitudes stay within a quarter turn *)
       /\ last[2] \in {"move", "up"} => \A i \in 1 .. 2 : s[i].hold # <<>> => RLe(RAbs(s[i].rot[2]), 90)
       /\ last[2] = "up" => \A i \in 1 .. 2 : s[i].hold = <<>>
       /\ \A i \in 1 .. 2 : s[i].up = 1 => s[i].set = 1
       (* the direction a net is turned to is in its middle; the square is symmetric about it *)
       /\ \A i \in 1 .. 2 : RNear(Away(s[i].rot, <<RNeg(s[i].rot[1]), RNeg(s[i].rot[2])>>), 0, "1e-4")
(* nothing moves a net that is not touched or held *)
Still == [][\A i \in 1 .. 2 : last'[1] # i /\ s[i].hold = <<>> => s'[i] = s[i]]_<<s, hist, last>>
Emit == Length = Depth => CSVWrite("%1$s", <<ToJson(hist)>>, IOEnv.CASES)
=============================================================================
