----------------------------- MODULE QuadricMC ------------------------------
(* The quadrics of fits of any small shape in any signed frame, at growing    *)
(* error levels.                                                              *)
EXTENDS Quadric, TLC, Json, CSV, IOUtils, FiniteSets
CONSTANTS Sizes, Numbers, MaxLevel
VARIABLES s, n, perm, sign, turn, level

Perms == {<<1, 2, 3>>, <<2, 3, 1>>, <<3, 1, 2>>, <<2, 1, 3>>, <<1, 3, 2>>, <<3, 2, 1>>}
Frame(p, g) == [i \in 1 .. 3 |-> [j \in 1 .. 3 |-> IF p[i] = j THEN g[i] ELSE 0]]
(* a turned frame: a 3-4-5 rotation about the first axis *)
Tilted(F, k) == IF k = 0 THEN [i \in 1 .. 3 |-> [j \in 1 .. 3 |-> R(F[i][j])]]
                ELSE LET Q == << <<R(1), R(0), R(0)>>, <<R(0), R("0.8"), R("-0.6")>>, <<R(0), R("0.6"), R("0.8")>> >>
                     IN MM([i \in 1 .. 3 |-> [j \in 1 .. 3 |-> R(F[i][j])]], Q)
Init == /\ s \in {t \in Sizes \X Sizes \X Sizes : t[1] >= t[2] /\ t[2] >= t[3] /\ t[3] > 0}
        /\ n \in Numbers /\ level = 1
        /\ perm \in Perms /\ turn \in {0, 1}
        /\ sign \in {<<1, 1, 1>>, <<-1, 1, 1>>, <<1, -1, -1>>, <<1, 1, -1>>, <<-1, -1, -1>>}
Next == level < MaxLevel /\ level' = level + 1 /\ UNCHANGED <<s, n, perm, sign, turn>>
Spec == Init /\ [][Next]_<<s, n, perm, sign, turn, level>>

A == Tilted(Frame(perm, sign), turn)
S == [i \in 1 .. 3 |-> R(s[i])]
c == CovOf(S, n)
D == R(s[1] * s[2])
E == Ellipsoid(c, level, D)
Near0(x, size) == RNear(x, 0, RMul("1e-9", RAdd(1, size)))
Dirs == {<<1, 0>>, <<0, 1>>, <<-3, 4>>, <<5, 12>>}
(* the directions of the cone touch the ellipsoid *)
OnCone(u) == LET w == RSqrt(RDiv(RMul(level, level), RSub(Sq(D), RMul(level * level, c[3]))))
                 k == RSqrt(RDiv(1, RAdd(RDiv(u[1] * u[1], c[1]), RDiv(u[2] * u[2], c[2]))))
             IN <<RMul(u[1], RMul(k, w)), RMul(u[2], RMul(k, w)), R(1)>>
Touches == Outside(c, level, D) => \A u \in Dirs : LET v == OnCone(u) IN
  /\ Near0(Touch(E, v), Sq(E[3][4])) /\ RNear(SeenRatio(c, level, D, v), 1, "1e-9")
(* its own center is inside, and its ends on it *)
Ends == LET q == [i \in 1 .. 3 |-> RMul(level, RSqrt(c[i]))] IN
  /\ RNear(Form(E, <<R(0), R(0), D>>), -1, RMul("1e-9", RAdd(1, RDiv(Sq(D), Sq(q[3])))))
  /\ \A g \in {1, -1} : /\ Near0(Form(E, <<RMul(g, q[1]), R(0), D>>), RDiv(Sq(D), Sq(q[3])))
                        /\ Near0(Form(E, <<R(0), R(0), RAdd(D, RMul(g, q[3]))>>), RDiv(Sq(D), Sq(q[3])))
(* a higher level surrounds a lower one *)
Grows == level > 1 => RLt(Form(Ellipsoid(c, level, D), <<RMul(level - 1, RSqrt(c[1])), R(0), D>>), 0)
(* turning the frame over turns the ellipsoid over, and keeps the hyperboloid *)
Flip == [i \in 1 .. 3 |-> Vneg(A[i])]
Biggest(M) == RMax(RMax(MaxAbs(M[1]), MaxAbs(M[2])), RMax(MaxAbs(M[3]), MaxAbs(M[4])))
Turning == /\ MNear(InData(A, Hyperboloid(c)), InData(Flip, Hyperboloid(c)), RMul("1e-12", Biggest(Hyperboloid(c))))
           /\ ~ REq(A[3][3], 0) => MNear(InData(Upward(A), E), InData(Upward(Flip), E), RMul("1e-12", Biggest(E)))
(* the form in the data's coordinates at a point is that in the frame at its  *)
(* coordinates there                                                          *)
Carried == \A p \in {<<R(1), R(2), R(3)>>, <<R(-2), R(0), R(5)>>} :
  LET q == MV(A, p) IN RNear(Form(InData(A, E), p), Form(E, q), RMul("1e-9", RMul(40, Biggest(E))))
Inv == Touches /\ Ends /\ Grows /\ Turning /\ Carried
Emit == level = 1 => CSVWrite("%1$s", <<ToJson([s |-> s, n |-> n, perm |-> perm, sign |-> sign, turn |-> turn])>>, IOEnv.CASES)
=============================================================================
