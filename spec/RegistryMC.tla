----------------------------- MODULE RegistryMC -----------------------------
(* Grouping, disabling, reordering and dropping, explored exhaustively.  The  *)
(* VIEW is the abstract world, so every world is expanded once; EmitStep      *)
(* writes the history of every transition out of every world.                 *)
EXTENDS Registry, TLC, Json, CSV, IOUtils
CONSTANTS NPlanes, MaxGroups, MaxOps, Deep, Thin
VARIABLES list, hist, nid

Name(i) == CASE i = 0 -> "?" [] i = 1 -> "a" [] i = 2 -> "b" [] i = 3 -> "c" [] i = 4 -> "d" [] i = 5 -> "e" [] i = 6 -> "p"
              [] i = 11 -> "g1" [] i = 12 -> "g2" [] i = 13 -> "g3" [] i = 14 -> "g4" [] i = 15 -> "g5" [] i = 16 -> "g6" [] i = 17 -> "g7" [] i = 18 -> "g8" [] i = 19 -> "g9"
Plane(i) == [id |-> i, kind |-> "plane", uid |-> Name(i), owner |-> 0, members |-> <<>>, off |-> 0, data |-> Name(i)]

(* the last entry is a published plane, without points *)
Init == list = Append([i \in 1 .. NPlanes |-> Plane(i)], [Plane(6) EXCEPT !.kind = "published"]) /\ hist = <<>> /\ nid = 11
P == 1 .. NPlanes
Uid == P \cup {0} \cup {11}
Pairs == {<<i, j>> : i \in Uid, j \in Uid}
Triples == {<<i, j, k>> \in P \X P \X P : i < j /\ j < k} \cup {<<3, 1, 2>>, <<1, 2, 1>>, <<1, 2, 0>>}
One == {<<q>> : q \in Pairs \cup Triples}
Two == {<<q, r>> : q \in {<<1, 2>>, <<2, 3>>, <<1, 3>>}, r \in {x \in Pairs : x[1] # x[2]}}
       \cup { << <<3, 0>>, <<1, 2>> >>, << <<1, 2, 3>>, <<3, 4>> >>, << <<1, 2>>, <<3, 3>> >> }
Requests == One \cup Two
(* no group at all, groups of one, groups of nobody and of planes without points *)
Odd == { <<>>, << <<>> >>, << <<3>> >>, << <<6>> >>, << <<1, 2>>, <<>> >>, << <<1, 2>>, <<6, 3>> >>, << <<2, 3>>, <<6>> >>,
         << <<>>, <<4, 1>> >>, << <<4>>, <<1>>, <<2>> >> }

Abstract == [i \in DOMAIN list |-> <<list[i].id, list[i].members, list[i].off, list[i].owner>>]

(* create_groups: owners are recomputed from the groups in the list *)
Owner(lst, o) == IF IsGroup(o) THEN 0
                 ELSE LET gs == {g \in Groups(lst) : o.id \in Range(lst[g].members)}
                      IN IF gs = {} THEN 0 ELSE lst[CHOOSE g \in gs : TRUE].id
Reown(lst) == [i \in DOMAIN lst |-> [lst[i] EXCEPT !.owner = Owner(lst, lst[i])]]
NewGroup(k, uids) == [id |-> nid + k - 1, kind |-> "group", uid |-> Name(nid + k - 1), owner |-> 0,
                      members |-> ResolvedIds(list, uids), off |-> 0, data |-> Name(nid + k - 1)]
Weight(req, cp) ==
  IF req \in Odd THEN Thin
  ELSE req[1][1] + 3 * req[1][2] + 5 * Len(req) + cp + Len(hist) + (IF Len(req) = 2 THEN 2 * req[2][1] + req[2][2] ELSE 0)
Create ==
  \E req \in Requests \cup Odd : \E cp \in {0, 1} :
    LET names == [k \in DOMAIN req |-> [m \in DOMAIN req[k] |-> Name(req[k][m])]]
    IN /\ Cardinality(Groups(list)) + Len(req) <= MaxGroups
       /\ Weight(req, cp) % Thin = 0
       /\ list' = IF Outcome(list, names) = "ok"
                  THEN Reown(list \o [k \in DOMAIN req |-> NewGroup(k, names[k])])
                  ELSE list
       /\ nid' = IF Outcome(list, names) = "ok" THEN nid + Len(req) ELSE nid
       /\ hist' = Append(hist, [op |-> "group", groups |-> names, copy |-> cp])
Disable ==
  \E us \in {<<1>>, <<2, 3>>, <<11>>, <<0>>, <<1, 0, 2>>, <<4, 1>>} :
    LET known(k) == \A j \in 1 .. k : Has(list, Name(us[j]))
        hit == {Lookup(list, Name(us[k])) : k \in {j \in DOMAIN us : known(j)}}
    IN /\ list' = [i \in DOMAIN list |-> IF i \in hit THEN [list[i] EXCEPT !.off = 1] ELSE list[i]]
       /\ hist' = Append(hist, [op |-> "disable", uids |-> [k \in DOMAIN us |-> Name(us[k])]])
       /\ UNCHANGED nid
(* the user's own list handling, between the calls *)
Reverse == /\ \E g \in DOMAIN list : IsGroup(list[g])
           /\ list' = [i \in DOMAIN list |-> list[Len(list) + 1 - i]]
           /\ hist' = Append(hist, [op |-> "reverse"]) /\ UNCHANGED nid
Drop == \E k \in DOMAIN list :
          /\ Len(list) > 2 /\ Groups(list) # {}
          /\ list' = SubSeq(list, 1, k - 1) \o SubSeq(list, k + 1, Len(list))
          /\ hist' = Append(hist, [op |-> "drop", k |-> k]) /\ UNCHANGED nid
Next == Len(hist) < MaxOps /\ (Create \/ Disable \/ Reverse \/ Drop)
vars == <<list, hist, nid>>
Spec == Init /\ [][Next]_vars

(* the two readings of a refusal agree *)
FaultsAgree == \A req \in One \cup Odd \cup { << <<1, 2>>, <<3, 3>> >>, << <<3, 0>>, <<11, 2>> >> } :
  LET names == [k \in DOMAIN req |-> [m \in DOMAIN req[k] |-> Name(req[k][m])]]
  IN IF Outcome(list, names) = "ok" THEN Faults(list, names) = {} ELSE Outcome(list, names) \in Faults(list, names)
(* dropping an object from a list leaves stale owners until the next grouping *)
Whole == \A h \in DOMAIN hist : hist[h].op # "drop"
Inv == /\ Exclusive(list) /\ NoRepeats(list) /\ GroupsUnowned(list)
       /\ \A g \in Groups(list) : \A m \in Range(list[g].members) : m \in P
       /\ Whole => Consistent(list, list)
NothingLost == [][hist'[Len(hist')].op = "group" =>
                   /\ Len(list') >= Len(list)
                   /\ \A i \in DOMAIN list : SameContent(list[i], list'[i]) /\ list'[i].members = list[i].members]_vars
(* a grouping that succeeds mends the links, whatever the list went through *)
Mended == [][hist'[Len(hist')].op = "group" /\ list' # list =>
               OwnersListMember(list') /\ MembersPointBack(list', list')]_vars
EmitStep == hist'[Len(hist')].op \in {"reverse", "drop"} \/
   CSVWrite("%1$s", <<ToJson([hist |-> hist', ok |-> IF list' = list THEN 0 ELSE 1])>>, IOEnv.CASES)
=============================================================================
