--------------------------- MODULE TraceRegistry ---------------------------
(* Clauses on one observed call: pre/post are the user's list before and      *)
(* after, out the returned list, the heaps everything reachable from them.    *)
EXTENDS StatelessTrace, Registry

Owners(list) == [i \in DOMAIN list |-> list[i].owner]
Positions(list) == DOMAIN list

Group(e) ==
  LET want == Outcome(e.pre, e.groups)
      ok == e.result = "ok"
      old == Len(e.pre)
      fresh == old + 1 .. Len(e.out)
  IN [want |-> want, ok |-> ok, old |-> old, fresh |-> fresh]

(* C08 *)
Membership(e) ==
  LET g == Group(e)
  IN << Must("refuses-exactly-bad-requests", (e.result = "ok") <=> (g.want = "ok")),
        Clause("refusal-kind", g.want # "ok", e.result \in Faults(e.pre, e.groups) \/ "unfit" \in Faults(e.pre, e.groups)) >> \o
     When(g.ok /\ g.want = "ok", <<
        Must("each-plane-in-at-most-one-group", Exclusive(e.out) /\ NoRepeats(e.out)),
        Must("groups-hold-planes-only", Flat(e.out, e.outheap) /\ GroupsUnowned(e.out)),
        Must("members-point-back", MembersPointBack(e.out, e.outheap)),
        Must("owners-list-their-members", OwnersListMember(e.out)),
        Must("one-new-group-per-request", Len(e.out) = g.old + Len(e.groups)
               /\ \A i \in g.fresh : i <= Len(e.out) => IsGroup(e.out[i])),
        Clause("new-groups-hold-what-was-asked", Len(e.out) = g.old + Len(e.groups),
               \A k \in DOMAIN e.groups :
                 LET m == e.out[g.old + k].members
                 IN /\ Len(m) = Len(e.groups[k])
                    /\ \A j \in DOMAIN m : j <= Len(e.groups[k]) =>
                         m[j] = e.out[Lookup(e.pre, e.groups[k][j])].id),
        Must("old-groups-keep-their-members", \A i \in Groups(e.pre) :
               /\ IsGroup(e.out[i]) /\ Len(e.out[i].members) = Len(e.pre[i].members)
               /\ \A j \in DOMAIN e.pre[i].members :
                    \A p \in DOMAIN e.preheap : \A q \in DOMAIN e.outheap :
                      (e.preheap[p].id = e.pre[i].members[j] /\ e.outheap[q].id = e.out[i].members[j])
                        => e.preheap[p].uid = e.outheap[q].uid),
        Must("nothing-else-changes", \A i \in DOMAIN e.pre : SameContent(e.pre[i], e.out[i])),
        Must("mapping-names-the-group", \A i \in DOMAIN e.out :
               e.maps[i].owner = (IF e.out[i].owner = 0 THEN ""
                 ELSE ObjectIn(e.outheap, e.out[i].owner).uid)),
        Must("mapping-names-the-members", \A i \in DOMAIN e.out :
               e.maps[i].members = [j \in DOMAIN e.out[i].members |-> ObjectIn(e.outheap, e.out[i].members[j]).uid]) >>)

(* C09 *)
Isolation(e) ==
  LET g == Group(e)
  IN << Clause("refused-request-changes-nothing", e.result # "ok",
               e.post = e.pre /\ (e.postheap = e.preheap)),
        Clause("original-list-untouched", e.copy = 1, e.post = e.pre /\ e.postheap = e.preheap),
        Must("earlier-lists-untouched", e.now = e.was),
        \* nothing but a request disables a plane
        Clause("new-groups-are-enabled", g.ok, \A i \in g.fresh : e.out[i].off = 0),
        Clause("copies-share-no-object", e.copy = 1 /\ g.ok,
               {e.outheap[i].id : i \in DOMAIN e.outheap} \cap {e.preheap[i].id : i \in DOMAIN e.preheap} = {}),
        Clause("copies-equal-originals", e.copy = 1 /\ g.ok,
               Len(e.out) >= g.old /\ \A i \in DOMAIN e.pre : SameContent(e.pre[i], e.out[i])),
        Clause("without-copy-objects-are-kept", e.copy = 0 /\ g.ok,
               Len(e.out) >= g.old /\ \A i \in DOMAIN e.pre : e.out[i].id = e.pre[i].id),
        Clause("without-copy-nothing-else-changes", e.copy = 0 /\ g.ok,
               Len(e.out) >= g.old /\ \A i \in DOMAIN e.pre :
                 SameContent(e.pre[i], e.out[i]) /\ e.out[i].members = e.pre[i].members) >>

(* disable_orientations *)
Disabling(e) ==
  LET known(k) == \A j \in 1 .. k : Has(e.pre, e.uids[j])
      bad == \E k \in DOMAIN e.uids : ~ Has(e.pre, e.uids[k])
      asked == {Lookup(e.pre, e.uids[k]) : k \in {j \in DOMAIN e.uids : Has(e.pre, e.uids[j])}}
  IN << Must("unknown-identifier-refused", IF bad THEN e.result = "KeyError" ELSE e.result = "ok"),
        Clause("disables-exactly-the-requested", ~ bad /\ e.result = "ok",
               /\ Len(e.out) = Len(e.pre)
               /\ \A i \in DOMAIN e.pre : e.out[i] = IF i \in asked THEN [e.pre[i] EXCEPT !.off = 1] ELSE e.pre[i]),
        Clause("failure-disables-only-the-requested", bad,
               /\ Len(e.post) = Len(e.pre)
               /\ \A i \in DOMAIN e.pre : e.post[i] = e.pre[i] \/ (i \in asked /\ e.post[i] = [e.pre[i] EXCEPT !.off = 1])),
        Clause("mapping-shows-disabled", e.result = "ok", \A i \in DOMAIN e.out : e.maps[i].off = e.out[i].off),
        Must("earlier-lists-untouched", e.now = e.was) >>

C08(e) == IF e.op = "group" THEN Membership(e) ELSE <<>>
C09(e) == IF e.op = "group" THEN Isolation(e) ELSE Disabling(e)
=============================================================================
