------------------------------ MODULE Registry ------------------------------
(* The set of planar fits of a project as a mutable object graph.  A world is *)
(* a sequence of objects as the user holds them (a Python list); an object is *)
(* [id, kind, uid, owner, members, off, data]: identity, "plane" or "group",  *)
(* identifier, identity of the group it belongs to (0: none), identities of   *)
(* its members, disabled flag, and a fingerprint of its numeric content.      *)
(* heap is the set of all objects reachable from the list.                    *)
EXTENDS Integers, Sequences, FiniteSets

Ids(list) == {list[i].id : i \in DOMAIN list}
Range(s) == {s[i] : i \in DOMAIN s}
IsGroup(o) == o.kind = "group"
(* a plane known by its published values only: it has no points to pool       *)
Pointless(o) == o.kind = "published"
Groups(list) == {i \in DOMAIN list : IsGroup(list[i])}
Planes(list) == {i \in DOMAIN list : ~ IsGroup(list[i])}
(* identities claimed by the groups that are in the list *)
Claimed(list) == UNION {Range(list[g].members) : g \in Groups(list)}

(* lookup by identifier: the first object of the list that carries it *)
Has(list, uid) == \E i \in DOMAIN list : list[i].uid = uid
Lookup(list, uid) == CHOOSE i \in DOMAIN list : /\ list[i].uid = uid
                                               /\ \A j \in 1 .. i - 1 : list[j].uid # uid
Flatten(ss) == LET RECURSIVE F(_)
                   F(i) == IF i > Len(ss) THEN <<>> ELSE ss[i] \o F(i + 1)
               IN F(1)

(* The outcome of a request to group: requests are resolved in order; an      *)
(* unknown identifier, a group, and a plane that is or becomes a member of a  *)
(* group are refused.                                                        *)
RECURSIVE Resolve(_, _, _, _)
Resolve(list, uids, k, taken) ==
  IF k > Len(uids) THEN "ok"
  ELSE IF ~ Has(list, uids[k]) THEN "KeyError"
  ELSE LET o == list[Lookup(list, uids[k])]
       IN IF IsGroup(o) \/ o.id \in taken THEN "GroupedPlaneError"
          ELSE Resolve(list, uids, k + 1, taken \cup {o.id})
(* a group needs points: somebody in it, and all of them with points           *)
Unfit(list, groups) == \E k \in DOMAIN groups : Len(groups[k]) = 0
   \/ \E j \in DOMAIN groups[k] : Has(list, groups[k][j]) /\ Pointless(list[Lookup(list, groups[k][j])])
Outcome(list, groups) ==
  LET r == Resolve(list, Flatten(groups), 1, Claimed(list))
  IN IF r = "ok" /\ Unfit(list, groups) THEN "unfit" ELSE r
(* why a request may be refused; a request with both faults may report either *)
Faults(list, groups) ==
  LET u == Flatten(groups)
      bad(k) == LET o == list[Lookup(list, u[k])]
                IN IsGroup(o) \/ o.id \in Claimed(list)
                   \/ \E j \in 1 .. k - 1 : Has(list, u[j]) /\ list[Lookup(list, u[j])].id = o.id
  IN (IF \E k \in DOMAIN u : ~ Has(list, u[k]) THEN {"KeyError"} ELSE {})
     \cup (IF \E k \in DOMAIN u : Has(list, u[k]) /\ bad(k) THEN {"GroupedPlaneError"} ELSE {})
     \cup (IF Unfit(list, groups) THEN {"unfit"} ELSE {})
ResolvedIds(list, uids) == [k \in DOMAIN uids |-> list[Lookup(list, uids[k])].id]

(* --- what holds of every world ------------------------------------------ *)
Exclusive(list) == \A g, h \in Groups(list) :
   g # h => Range(list[g].members) \cap Range(list[h].members) = {}
NoRepeats(list) == \A g \in Groups(list) : Cardinality(Range(list[g].members)) = Len(list[g].members)
ObjectIn(heap, id) == heap[CHOOSE i \in DOMAIN heap : heap[i].id = id]
Flat(list, heap) == \A g \in Groups(list) : \A m \in Range(list[g].members) :
   \E i \in DOMAIN heap : heap[i].id = m /\ heap[i].kind = "plane"
MembersPointBack(list, heap) == \A g \in Groups(list) : \A m \in Range(list[g].members) :
   \A i \in DOMAIN heap : heap[i].id = m => heap[i].owner = list[g].id
OwnersListMember(list) == \A i \in DOMAIN list : list[i].owner # 0 =>
   \E g \in Groups(list) : list[g].id = list[i].owner /\ list[i].id \in Range(list[g].members)
GroupsUnowned(list) == \A g \in Groups(list) : list[g].owner = 0
Consistent(list, heap) == /\ Exclusive(list) /\ NoRepeats(list) /\ Flat(list, heap)
                          /\ MembersPointBack(list, heap) /\ OwnersListMember(list) /\ GroupsUnowned(list)

(* the same object, except for where it lives and whom it is linked to *)
SameContent(a, b) == a.kind = b.kind /\ a.uid = b.uid /\ a.off = b.off /\ a.data = b.data
=============================================================================
