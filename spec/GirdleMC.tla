------------------------------ MODULE GirdleMC ------------------------------
(* Error surfaces in exact arithmetic: axes are signed permutations (and one  *)
(* 3-4-5 frame, scaled by 5), u runs over quarter turns.  All choices of      *)
(* axis signs are explored; invariants: the nominal sheet lies in the plane,  *)
(* upper and lower are mirror images, and the surfaces as sets do not depend  *)
(* on the signs of the axes.                                                  *)
EXTENDS Integers, Sequences, TLC, Json, CSV, IOUtils
CONSTANTS MaxD, Levels, Ns
VARIABLES frame, sg, d, sheet, level, layout, n, phase

Frames == << <<<<5,0,0>>, <<0,5,0>>, <<0,0,5>>>>, <<<<0,5,0>>, <<5,0,0>>, <<0,0,5>>>>,
             <<<<3,0,-4>>, <<0,5,0>>, <<4,0,3>>>>, <<<<0,3,-4>>, <<5,0,0>>, <<0,4,3>>>>,
             <<<<0,5,0>>, <<3,0,-4>>, <<4,0,3>>>>, <<<<4,0,3>>, <<0,-5,0>>, <<-3,0,4>>>>,
             <<<<3,4,0>>, <<-4,3,0>>, <<0,0,5>>>> >>
A(f, s) == [i \in 1 .. 3 |-> [j \in 1 .. 3 |-> s[i] * Frames[f][i][j]]]
Quarter == << <<1, 0>>, <<0, 1>>, <<-1, 0>>, <<0, -1>> >>
Add(x, y) == [i \in 1 .. 3 |-> x[i] + y[i]]
Times(k, x) == [i \in 1 .. 3 |-> k * x[i]]
Dot(x, y) == x[1] * y[1] + x[2] * y[2] + x[3] * y[3]
Off == [upper |-> -1, lower |-> 1, nominal |-> 0]
Point(f, s, dd, sh, lv, q) ==
  LET M == A(f, s)
      up == IF M[3][3] > 0 THEN 1 ELSE -1
  IN Add(Add(Times(Quarter[q][1] * dd[1], M[1]), Times(Quarter[q][2] * dd[2], M[2])),
         Times(2 * lv * Off[sh] * up * dd[3], M[3]))
Sheet(f, s, dd, sh, lv) == {Point(f, s, dd, sh, lv, q) : q \in 1 .. 4}
UpNormal(f) == LET M == Frames[f] IN IF M[3][3] > 0 THEN M[3] ELSE Times(-1, M[3])
Mirror(f, x) == LET m == UpNormal(f) IN Add(Times(25, x), Times(-2 * Dot(x, m), m))     \* scaled by 25

Signs == {<<a, b, c>> : a \in {1, -1}, b \in {1, -1}, c \in {1, -1}}
Init == phase = "pick" /\ frame = 1 /\ sg = <<1, 1, 1>> /\ d = <<1, 1, 1>> /\ sheet = "nominal" /\ level = 1 /\ layout = 1 /\ n = 5
Next == /\ phase = "pick" /\ phase' = "done"
        /\ frame' \in DOMAIN Frames /\ sg' \in Signs
        /\ d' \in {<<x, y, z>> : x \in 1 .. MaxD, y \in 1 .. MaxD, z \in 1 .. MaxD} /\ d'[1] >= d'[2]
        /\ sheet' \in DOMAIN Off /\ level' \in Levels /\ layout' \in {0, 1} /\ n' \in Ns
        /\ level' # 1 => n' = 5
Spec == Init /\ [][Next]_<<frame, sg, d, sheet, level, layout, n, phase>>
NominalInPlane == \A x \in Sheet(frame, sg, d, "nominal", level) : Dot(x, UpNormal(frame)) = 0
MirrorImages == {Times(25, x) : x \in Sheet(frame, sg, d, "lower", level)} =
                {Mirror(frame, x) : x \in Sheet(frame, sg, d, "upper", level)}
LevelZero == level = 0 => Sheet(frame, sg, d, sheet, level) = Sheet(frame, sg, d, "nominal", 1)
SignsIrrelevant == Sheet(frame, sg, d, sheet, level) = Sheet(frame, <<1, 1, 1>>, d, sheet, level)
UpperIsBelow == level > 0 => \A x \in Sheet(frame, sg, d, "upper", level) : Dot(x, UpNormal(frame)) < 0
Inv == NominalInPlane /\ MirrorImages /\ SignsIrrelevant /\ UpperIsBelow /\ LevelZero
Emit == phase = "done" => CSVWrite("%1$s", <<ToJson([axes |-> A(frame, sg), d |-> d, sheet |-> sheet,
            level |-> level, layout |-> layout, n |-> n])>>, IOEnv.CASES)
=============================================================================
