------------------------------ MODULE SavedMC ------------------------------
(* Saving a fit as its scaled axes and loading it again, any number of       *)
(* times, with queries in between.  Axes are exact rational rotations        *)
(* num/den; a saved matrix scales column j by singular value j.              *)
EXTENDS Integers, Sequences, TLC, Json, CSV, IOUtils
CONSTANTS Frames, Svs, Queries, MaxSteps
VARIABLES fr, axes, sv, saved, hist

Frame == << <<1, << <<1, 0, 0>>, <<0, 1, 0>>, <<0, 0, 1>> >> >>,
            <<3, << <<2, -2, 1>>, <<1, 2, 2>>, <<2, 1, -2>> >> >>,
            <<3, << <<1, 2, 2>>, <<2, 1, -2>>, <<-2, 2, -1>> >> >>,
            <<7, << <<2, 3, 6>>, <<3, -6, 2>>, <<6, 2, -3>> >> >>,
            <<7, << <<6, 2, -3>>, <<2, 3, 6>>, <<-3, 6, -2>> >> >>,
            <<5, << <<0, 3, 4>>, <<5, 0, 0>>, <<0, -4, 3>> >> >>,
            <<5, << <<3, 0, 4>>, <<0, 5, 0>>, <<-4, 0, 3>> >> >>,
            <<9, << <<1, 4, 8>>, <<8, -4, 1>>, <<4, 7, -4>> >> >>,
            <<1, << <<0, 0, 1>>, <<-1, 0, 0>>, <<0, -1, 0>> >> >> >>
I3 == 1 .. 3
SvTable == << <<5, 3, 1>>, <<40, 2, 1>>, <<7, 7, 2>>, <<9, 8, 7>>, <<100, 60, 3>> >>
Den == Frame[fr][1]
Column(M, j) == << M[1][j], M[2][j], M[3][j] >>
Sq(v) == v[1] * v[1] + v[2] * v[2] + v[3] * v[3]
SqrtOf(x) == CHOOSE r \in 0 .. x : r * r = x
None == << <<0, 0, 0>>, <<0, 0, 0>>, <<0, 0, 0>> >>

Init == /\ fr \in Frames /\ \E k \in Svs : sv = SvTable[k]
        /\ axes = Frame[fr][2] /\ saved = None /\ hist = <<>>
Save == /\ saved = None
        /\ saved' = [i \in I3 |-> [j \in I3 |-> axes[i][j] * sv[j]]]
        /\ hist' = Append(hist, "save") /\ UNCHANGED <<fr, axes, sv>>
(* loading divides every column by its length *)
Load == /\ saved # None
        /\ sv' = [j \in I3 |-> SqrtOf(Sq(Column(saved, j)) \div (Den * Den))]
        /\ axes' = [i \in I3 |-> [j \in I3 |-> saved[i][j] \div SqrtOf(Sq(Column(saved, j)) \div (Den * Den))]]
        /\ saved' = None /\ hist' = Append(hist, "load") /\ UNCHANGED fr
Query == /\ \E q \in Queries : hist' = Append(hist, q)
         /\ (IF hist = <<>> THEN TRUE ELSE hist[Len(hist)] \notin Queries)
         /\ UNCHANGED <<fr, axes, sv, saved>>
Next == Len(hist) < MaxSteps /\ (Save \/ Load \/ Query)
vars == <<fr, axes, sv, saved, hist>>
Spec == Init /\ [][Next]_vars

Orthogonal == \A i, j \in I3 :
   axes[i][1] * axes[j][1] + axes[i][2] * axes[j][2] + axes[i][3] * axes[j][3] = IF i = j THEN Den * Den ELSE 0
Recovered == axes = Frame[fr][2]
SvKept == [][sv' = sv]_vars
Inv == Orthogonal /\ Recovered
Emit == (IF hist = <<>> THEN FALSE ELSE hist[Len(hist)] = "load") =>
  CSVWrite("%1$s", <<ToJson([axes |-> Frame[fr][2], den |-> Den, sv |-> sv, hist |-> hist])>>, IOEnv.CASES)
=============================================================================
