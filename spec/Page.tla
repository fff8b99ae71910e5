-------------------------------- MODULE Page --------------------------------
(* The viewer's page.  D is the sequence of attitudes on the page, each with  *)
(* uid, group (1 if it is one), members (their uids) and owner ("" if none).  *)
(* State: what is selected (in order), what is pointed at, and the switches.  *)
LOCAL INSTANCE Integers
LOCAL INSTANCE Sequences
LOCAL INSTANCE FiniteSets

(* whole: whether groups can be selected *)
Start == [whole |-> 1, sel |-> <<>>, hov |-> <<>>, zoom |-> 0, groups |-> 1, planes |-> 0, poles |-> 1]
In(s, x) == \E i \in DOMAIN s : s[i] = x
Without(s, x) == SelectSeq(s, LAMBDA y : y # x)
Has(D, u) == \E i \in DOMAIN D : D[i].uid = u
Of(D, u) == D[CHOOSE i \in DOMAIN D : D[i].uid = u]
(* pointing at a member points at its group; at a group, also at its members *)
Pointed(D, u) ==
  LET o == Of(D, u).owner
      w == IF o # "" /\ Has(D, o) THEN o ELSE u
  IN IF Of(D, w).group = 1 THEN <<w>> \o SelectSeq(Of(D, w).members, LAMBDA m : Has(D, m)) ELSE <<w>>
After(D, s, a, u) ==
  CASE a = "pick" /\ s.whole = 0 /\ Of(D, u).group = 1 -> s
    [] a = "pick"  -> [s EXCEPT !.sel = IF In(s.sel, u) THEN Without(s.sel, u) ELSE Append(s.sel, u)]
    [] a \in {"over", "touch"} -> [s EXCEPT !.hov = Pointed(D, u)]
    [] a = "leave" -> [s EXCEPT !.hov = <<>>]
    [] a = "clear" -> [s EXCEPT !.sel = <<>>]
    [] a = "zoom"  -> [s EXCEPT !.zoom = 1 - @]
    [] a = "groups" -> [s EXCEPT !.groups = 1 - @]
    [] a = "planes" -> [s EXCEPT !.planes = 1 - @]
    [] a = "poles" -> [s EXCEPT !.poles = 1 - @]
(* what is on the page *)
Uids(D) == [i \in DOMAIN D |-> D[i].uid]
Listed(D, s) == Uids(IF s.groups = 1 THEN D ELSE SelectSeq(D, LAMBDA d : d.group = 0))
Charted(D, s) == IF s.zoom = 1 THEN s.sel ELSE Uids(D)
Planes(D, s) == IF s.planes = 1 THEN Charted(D, s) ELSE <<>>
Poles(D, s) == IF s.poles = 1 THEN Charted(D, s) ELSE <<>>
LitPlanes(D, s) == IF s.planes = 1 THEN s.hov ELSE <<>>
LitPoles(D, s) == IF s.poles = 1 THEN s.hov ELSE <<>>
Described(s) == IF s.hov = <<>> THEN "" ELSE s.hov[1]
RECURSIVE Joined(_)
Joined(s) == IF s = <<>> THEN "" ELSE "\"" \o s[1] \o "\"" \o (IF Len(s) = 1 THEN "" ELSE "," \o Joined(Tail(s)))
Copied(s) == "[" \o Joined(s.sel) \o "]"
=============================================================================
