------------------------------ MODULE ConeMC ------------------------------
(* The error cone and its dual in exact arithmetic: semiaxes are small        *)
(* integers, parameters run over the 3-4-5 points of the circle.  Invariants: *)
(* every pole belongs to a plane that touches the cone and passes all of it   *)
(* on one side, upper and lower sheets mirror one another in the plane, and   *)
(* nothing depends on the signs of the axes.  Each state is replayed in the   *)
(* viewer.                                                                    *)
EXTENDS Integers, Sequences, TLC, Json, CSV, IOUtils
CONSTANTS MaxS, Levels, Ns
VARIABLES frame, sg, s, sheet, level, layout, n, phase

Frames == << <<<<5,0,0>>, <<0,5,0>>, <<0,0,5>>>>, <<<<0,5,0>>, <<5,0,0>>, <<0,0,5>>>>,
             <<<<3,0,-4>>, <<0,5,0>>, <<4,0,3>>>>, <<<<0,3,-4>>, <<5,0,0>>, <<0,4,3>>>>,
             <<<<4,0,3>>, <<0,-5,0>>, <<-3,0,4>>>>, <<<<3,4,0>>, <<-4,3,0>>, <<0,0,5>>>>,
             <<<<0,0,5>>, <<3,4,0>>, <<-4,3,0>>>> >>
Circle == << <<5,0>>, <<4,3>>, <<3,4>>, <<0,5>>, <<-3,4>>, <<-4,3>>, <<-5,0>>, <<-4,-3>>, <<-3,-4>>, <<0,-5>>, <<3,-4>>, <<4,-3>> >>
(* cone points (scaled by 5) and the pole touching there (scaled by 5 s1 s2)  *)
P(t, q) == << t[1] * Circle[q][1], t[2] * Circle[q][2], -5 * t[3] >>
N(t, q) == << t[3] * t[2] * Circle[q][1], t[3] * t[1] * Circle[q][2], 5 * t[1] * t[2] >>
Dot(x, y) == x[1] * y[1] + x[2] * y[2] + x[3] * y[3]
OnCone(t, p) == t[2]*t[2]*t[3]*t[3]*p[1]*p[1] + t[1]*t[1]*t[3]*t[3]*p[2]*p[2] = t[1]*t[1]*t[2]*t[2]*p[3]*p[3]
OnDual(t, p) == t[1]*t[1]*p[1]*p[1] + t[2]*t[2]*p[2]*p[2] = t[3]*t[3]*p[3]*p[3]
Signs == {<<a, b, c>> : a \in {1, -1}, b \in {1, -1}, c \in {1, -1}}
M(f, g) == [i \in 1 .. 3 |-> [j \in 1 .. 3 |-> g[i] * Frames[f][i][j]]]
World(f, g, c) == [j \in 1 .. 3 |-> c[1] * M(f, g)[1][j] + c[2] * M(f, g)[2][j] + c[3] * M(f, g)[3][j]]
Up(f, g) == IF M(f, g)[3][3] < 0 THEN -1 ELSE 1
Off == [upper |-> -1, lower |-> 1, nominal |-> 0]
Sheet(f, g, t, sh) == {World(f, g, <<t[1] * Circle[q][1], t[2] * Circle[q][2], 5 * t[3] * Off[sh] * Up(f, g)>>) : q \in DOMAIN Circle}

Init == phase = "pick" /\ frame = 1 /\ sg = <<1, 1, 1>> /\ s = <<1, 1, 1>> /\ sheet = "nominal" /\ level = 1 /\ layout = 1 /\ n = 8
Next == /\ phase = "pick" /\ phase' = "done"
        /\ frame' \in DOMAIN Frames /\ sg' \in Signs
        /\ s' \in {<<x, y, z>> : x \in 1 .. MaxS, y \in 1 .. MaxS, z \in 1 .. MaxS} /\ s'[1] >= s'[2]
        /\ sheet' \in DOMAIN Off /\ level' \in Levels /\ layout' \in {0, 1} /\ n' \in Ns
        /\ level' # 1 => sheet' # "nominal" /\ n' = 8
        /\ s'[1] = s'[2] => sg' \in {<<1, 1, 1>>, <<1, -1, -1>>}
Spec == Init /\ [][Next]_<<frame, sg, s, sheet, level, layout, n, phase>>
Touching == \A q \in DOMAIN Circle :
   /\ OnCone(s, P(s, q)) /\ OnDual(s, N(s, q)) /\ Dot(P(s, q), N(s, q)) = 0
   /\ \A r \in DOMAIN Circle : Dot(P(s, r), N(s, q)) <= 0
(* signs of the first two axes never matter; the third only swaps nothing     *)
(* because sheets are named by the upward normal                              *)
SignsIrrelevant == Frames[frame][3][3] # 0 => Sheet(frame, sg, s, sheet) = Sheet(frame, <<1, 1, 1>>, s, sheet)
Inv == Touching /\ SignsIrrelevant
Emit == phase = "done" => CSVWrite("%1$s", <<ToJson([axes |-> M(frame, sg), s |-> s, sheet |-> sheet,
            level |-> level, layout |-> layout, n |-> n])>>, IOEnv.CASES)
=============================================================================
