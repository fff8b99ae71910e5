------------------------------ MODULE HyperMC -------------------------------
(* Error bands in exact arithmetic and the life of a drawn band.  Radii are   *)
(* compared as fractions; viewing axes are integer vectors of length 5.       *)
(* A drawn band is made (empty or with data), plotted and updated any number  *)
(* of times; what is on the page is always the band of the last data.         *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, CSV, IOUtils
CONSTANTS MaxH, MaxOps, NData
VARIABLES h, view, frame, rev, hist, data, shown

Views == << <<<<0,5,0>>, <<0,0,5>>>>, <<<<5,0,0>>, <<0,0,5>>>>, <<<<3,4,0>>, <<0,0,5>>>>, <<<<-4,3,0>>, <<0,0,5>>>>,
            <<<<4,0,3>>, <<-3,0,4>>>>, <<<<0,4,-3>>, <<0,3,4>>>>, <<<<-5,0,0>>, <<0,0,-5>>>>, <<<<5,0,0>>, <<0,5,0>>>>,
            <<<<0,3,4>>, <<5,0,0>>>> >>
Frames == << <<<<1,0,0>>, <<0,1,0>>, <<0,0,1>>>>, <<<<0,1,0>>, <<1,0,0>>, <<0,0,1>>>>, <<<<0,1,0>>, <<0,0,1>>, <<1,0,0>>>>,
             <<<<-1,0,0>>, <<0,0,1>>, <<0,1,0>>>> >>
Dot(u, w) == u[1] * w[1] + u[2] * w[2] + u[3] * w[3]
MV(M, u) == <<Dot(M[1], u), Dot(M[2], u), Dot(M[3], u)>>
(* squared radius along a as a fraction <<num, den>>                          *)
RECURSIVE Gcd(_, _)
Gcd(a, b) == IF b = 0 THEN a ELSE Gcd(b, a % b)
Red(p) == LET g == Gcd(p[1], p[2]) IN << p[1] \div g, p[2] \div g >>
Rad(hh, f, a) == LET b == MV(Frames[f], a)
                 IN Red(<< 25 * hh[1] * hh[2] * hh[3],
                       b[1] * b[1] * hh[2] * hh[3] + b[2] * b[2] * hh[1] * hh[3] + b[3] * b[3] * hh[1] * hh[2] >>)
Le(p, q) == p[1] * q[2] <= q[1] * p[2]
(* squared half width at integer x: r2 (1 + x^2 / r1)                         *)
Width(hh, f, v, x) == LET r1 == Rad(hh, f, Views[v][1])
                          r2 == Rad(hh, f, Views[v][2])
                      IN Red(<< r2[1] * (r1[1] + x * x * r1[2]), r2[2] * r1[1] >>)
MinOf(S) == CHOOSE x \in S : \A y \in S : x <= y
MaxOf(S) == CHOOSE x \in S : \A y \in S : y <= x

Init == /\ h \in {<<x, y, z>> : x \in 1 .. MaxH, y \in 1 .. MaxH, z \in 1 .. MaxH} /\ h[1] >= h[2]
        /\ view \in DOMAIN Views /\ frame \in DOMAIN Frames /\ rev \in BOOLEAN
        /\ \E d \in 0 .. 1 : data = d /\ hist = <<<<"new", d>>>>
        /\ shown = -1
(* the life of the band is explored for one geometry; geometry for one life   *)
Live == h = <<2, 1, 1>> /\ view = 1 /\ frame = 1 /\ ~rev
Plot == Live /\ Len(hist) < MaxOps /\ shown = -1 /\ shown' = data /\ hist' = Append(hist, <<"plot", data>>) /\ UNCHANGED <<h, view, frame, rev, data>>
Update == /\ Live /\ Len(hist) < MaxOps /\ shown # -1
          /\ \E d \in 1 .. NData : data' = d /\ shown' = d /\ hist' = Append(hist, <<"update", d>>)
          /\ UNCHANGED <<h, view, frame, rev>>
Nominal == /\ Live /\ Len(hist) < MaxOps /\ data # 0 /\ hist' = Append(hist, <<"nominal", data>>)
           /\ UNCHANGED <<h, view, frame, rev, data, shown>>
Next == Plot \/ Update \/ Nominal
Spec == Init /\ [][Next]_<<h, view, frame, rev, hist, data, shown>>

Shown == shown # -1 => shown = data
(* radii lie between the least and the greatest semiaxis                      *)
Bounded == \A k \in 1 .. 2 : LET r == Rad(h, frame, Views[view][k])
                             IN Le(<<MinOf({h[1], h[2], h[3]}), 1>>, r) /\ Le(r, <<MaxOf({h[1], h[2], h[3]}), 1>>)
(* the band is narrowest at the center, widens outwards, and a larger normal error widens it *)
Widens == \A x \in 0 .. 2 : Le(Width(h, frame, view, x), Width(h, frame, view, x + 1))
Mirror == \A x \in 0 .. 2 : Width(h, frame, view, x) = Width(h, frame, view, -x)
Inv == Shown /\ Bounded /\ Widens /\ Mirror
Emit == (Len(hist) = 1 \/ Len(hist) = MaxOps) => CSVWrite("%1$s", <<ToJson([h |-> h, view |-> Views[view], frame |-> Frames[frame], rev |-> rev, hist |-> hist])>>, IOEnv.CASES)
=============================================================================
