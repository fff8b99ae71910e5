-------------------------------- MODULE Sheet --------------------------------
(* The plotter's sheet: rows of six texts (strike, dip, rake, greatest and    *)
(* least error, color; empty text for an empty cell).                         *)
EXTENDS Linear
LOCAL INSTANCE TLC
LOCAL INSTANCE Integers
LOCAL INSTANCE Sequences

Numbers == << <<"10", "10">>, <<"8", "8">>, <<"2", "2">>, <<"20", "20">>, <<"120", "120">>, <<"46", "46">>, <<"5", "5">>, <<"45", "45">>, <<"0", "0">>,
              <<"9", "9">>, <<"1e1", "10">>, <<" 7 ", "7">>, <<"007", "7">>, <<"12.25", "12.25">>, <<"-3.5", "-3.5">>, <<".5", "0.5">>, <<"359.999", "359.999">> >>
Colors == {"#65499e", "dodgerblue", "red"}
IsNumber(t) == \E i \in DOMAIN Numbers : Numbers[i][1] = t
Value(t) == R(Numbers[CHOOSE i \in DOMAIN Numbers : Numbers[i][1] = t][2])
Empty == <<"", "", "", "", "", "">>
Default == << <<"10", "8", "2", "20", "8", "#65499e">>, <<"120", "46", "5", "45", "2", "dodgerblue">> >> \o [i \in 1 .. 8 |-> Empty]
(* the greatest error is never less than the least *)
Ordered(r) == IF IsNumber(r[4]) /\ IsNumber(r[5]) THEN IF RLt(Value(r[4]), Value(r[5])) THEN <<r[1], r[2], r[3], r[5], r[4], r[6]>> ELSE r ELSE r
Complete(r) == \A k \in 1 .. 5 : IsNumber(r[k])
RECURSIVE Put(_, _)
(* edits: row, column, text *)
Put(rows, es) == IF es = <<>> THEN rows ELSE Put([rows EXCEPT ![es[1][1]] = [@ EXCEPT ![es[1][2]] = es[1][3]]], Tail(es))
Edited(rows, es) == LET p == TLCEval(Put(rows, es)) IN [i \in DOMAIN p |-> Ordered(p[i])]
More(rows) == rows \o [i \in 1 .. (((Len(rows) + 10 + 9) \div 10) * 10 - Len(rows)) |-> Empty]
Result(rows, o, es) == CASE o = "edit" -> Edited(rows, es) [] o = "more" -> More(rows) [] o = "reset" -> Default [] OTHER -> rows
Mark(k, t) == IF t = "" THEN "empty" ELSE IF (IF k = 6 THEN t \in Colors ELSE IsNumber(t)) THEN "ok" ELSE "invalid"
Plotted(rows) == SelectSeq(rows, Complete)
=============================================================================
