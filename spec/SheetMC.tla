------------------------------- MODULE SheetMC -------------------------------
(* All short histories of edits, added rows, resets and reloads.             *)
EXTENDS Sheet, Integers, Sequences, FiniteSets, TLC, Json, CSV, IOUtils
CONSTANTS Depth
VARIABLES rows, hist

Single == {<< <<r, k, t>> >> : r \in {1, 3}, k \in 1 .. 5, t \in {"", "9", "abc"}} \cup {<< <<r, 6, t>> >> : r \in {1, 3}, t \in {"", "red", "no color!"}}
Several == { << <<3, 1, "10">>, <<3, 2, "1e1">>, <<3, 3, "0">>, <<3, 4, "5">>, <<3, 5, "2">> >>,
             << <<4, 1, "007">>, <<4, 2, "46">>, <<4, 3, "-3.5">>, <<4, 4, "2">>, <<4, 5, "10">>, <<4, 6, "red">> >>,
             << <<1, 4, ".5">>, <<2, 5, "120">>, <<1, 1, "">> >>, << <<10, 5, "9">>, <<10, 4, "12.25">> >> }
Init == rows = Default /\ hist = <<>>
Do(o, es) == Len(hist) < Depth /\ rows' = Result(rows, o, es) /\ hist' = Append(hist, <<o, es>>)
Next == (\E es \in Single \cup Several : Do("edit", es)) \/ (\E o \in {"more", "reset", "reload"} : Do(o, <<>>))
Spec == Init /\ [][Next]_<<rows, hist>>
Inv == /\ Len(rows) % 10 = 0 /\ Len(rows) >= 10
       /\ \A i \in DOMAIN rows : IsNumber(rows[i][4]) /\ IsNumber(rows[i][5]) => RLe(Value(rows[i][5]), Value(rows[i][4]))
       /\ Len(Plotted(rows)) = Cardinality({i \in DOMAIN rows : Complete(rows[i])})
       /\ SubSeq(More(rows), 1, Len(rows)) = rows /\ Len(More(rows)) = Len(rows) + 10
       /\ Edited(rows, <<>>) = rows
Emit == Len(hist) = Depth => CSVWrite("%1$s", <<ToJson(hist)>>, IOEnv.CASES)
=============================================================================
