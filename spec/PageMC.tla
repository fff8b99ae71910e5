------------------------------- MODULE PageMC -------------------------------
(* All short histories of what a user does on the page.                       *)
EXTENDS Page, Integers, Sequences, FiniteSets, TLC, Json, CSV, IOUtils
CONSTANTS Depth, Sets
VARIABLES s, hist, which

M(u, o) == [uid |-> u, group |-> 0, members |-> <<>>, owner |-> o]
G(u, m) == [uid |-> u, group |-> 1, members |-> m, owner |-> ""]
Data == << << M("a", "g"), M("b", ""), M("c", "g"), G("g", <<"a", "c">>) >>,
           << G("g", <<"b", "x">>), M("b", "g"), M("a", "y") >>,
           << M("a", ""), M("b", "") >> >>
D == Data[which]
Init == which \in Sets /\ s = Start /\ hist = <<>>
Do(a, i) == /\ Len(hist) < Depth
            /\ a = "clear" => s.sel # <<>>
            /\ a = "zoom" => s.sel # <<>>
            /\ a \in {"pick", "over"} => In(Listed(D, s), D[i].uid)
            /\ a = "touch" => In(Planes(D, s), D[i].uid) \/ In(Poles(D, s), D[i].uid)
            /\ s' = After(D, s, a, D[i].uid)
            /\ hist' = Append(hist, <<a, i - 1>>) /\ which' = which
Next == \/ \E a \in {"pick", "over", "touch"}, i \in DOMAIN D : Do(a, i)
        \/ \E a \in {"leave", "clear", "zoom", "groups", "planes", "poles"} : Do(a, 1)
Spec == Init /\ [][Next]_<<s, hist, which>>
Once(q) == \A i, j \in DOMAIN q : q[i] = q[j] => i = j
Inv == /\ Once(s.sel) /\ Once(s.hov)
       /\ \A i \in DOMAIN s.sel : Has(D, s.sel[i])
       /\ \A i \in DOMAIN s.hov : Has(D, s.hov[i])
       (* a member is never pointed at without its group *)
       /\ \A i \in DOMAIN s.hov : LET o == Of(D, s.hov[i]).owner IN o # "" /\ Has(D, o) => In(s.hov, o)
       /\ s.zoom = 0 => Charted(D, s) = Uids(D)
       /\ \A i \in DOMAIN D : After(D, After(D, s, "pick", D[i].uid), "pick", D[i].uid).sel \in {s.sel, Append(Without(s.sel, D[i].uid), D[i].uid)}
       /\ \A a \in {"zoom", "groups", "planes", "poles"} : After(D, After(D, s, a, ""), a, "") = s
Emit == Len(hist) = Depth => CSVWrite("%1$s", <<ToJson([data |-> D, acts |-> hist])>>, IOEnv.CASES)
=============================================================================
