------------------------------ MODULE ErrorMC ------------------------------
(* The error statistics in exact rational arithmetic: eigenvalues a1^2, a2^2 *)
(* and c^2 with n - 2 = m^2 points make every square root rational.  Levels  *)
(* are abstract multipliers z.  The invariants are the ordering and the      *)
(* growth of the angular errors in the well-constrained regime.  Each        *)
(* configuration is emitted with every choice of method and options.         *)
EXTENDS Integers, Sequences, TLC, Json, CSV, IOUtils
CONSTANTS MaxA, Ms, Zs
VARIABLES phase, a1, a2, c, m, z, opt

(* h_i * m = |a_i (a_i m - 2 z c)|,   h_3 * m = c (c m + 2 z c) *)
Abs(x) == IF x < 0 THEN -x ELSE x
H(a, zz) == Abs(a * (a * m - 2 * zz * c))
H3(zz) == c * (c * m + 2 * zz * c)
Well(zz) == a2 * m > 2 * zz * c
(* tan^2 of the angular error about axis a is H3/H(a): compare by cross product *)
NoSmaller(p1, q1, p2, q2) == p1 * q2 >= p2 * q1     \* p1/q1 >= p2/q2, denominators positive

Routes == {"direct", "statistical", "dispatch", "fit"}
Opts == [method : {"noise", "sampling"}, chisq : {0, 1}, onall : {0, 1}, level : 1 .. 4, route : Routes]

Init == phase = "shape" /\ a1 = 1 /\ a2 = 1 /\ c = 1 /\ m = 1 /\ z = 0 /\ opt = <<>>
Shape == /\ phase = "shape"
         /\ a1' \in 1 .. MaxA /\ a2' \in 1 .. MaxA /\ c' \in 1 .. MaxA /\ a1' >= a2' /\ a2' >= c'
         /\ m' \in Ms /\ z' = 0 /\ phase' = "level" /\ UNCHANGED opt
Raise == /\ phase = "level" /\ z < Zs /\ z' = z + 1 /\ UNCHANGED <<phase, a1, a2, c, m, opt>>
Choose == /\ phase = "level" /\ z = 0
          /\ opt' \in Opts
          /\ (a1 * 7 + a2 * 5 + c * 3 + m + opt'.level + (IF opt'.method = "noise" THEN 0 ELSE 1)
               + 2 * opt'.chisq + 3 * opt'.onall
               + (CASE opt'.route = "direct" -> 0 [] opt'.route = "statistical" -> 4
                    [] opt'.route = "dispatch" -> 8 [] OTHER -> 13)) % 6 = 0
          /\ phase' = "done" /\ UNCHANGED <<a1, a2, c, m, z>>
Next == Shape \/ Raise \/ Choose
vars == <<phase, a1, a2, c, m, z, opt>>
Spec == Init /\ [][Next]_vars

Ordered == (phase = "level" /\ Well(z)) => H(a1, z) >= H(a2, z)
MinAtMostMax == (phase = "level" /\ Well(z)) => NoSmaller(H3(z), H(a2, z), H3(z), H(a1, z))
Grows == [][ (phase = "level" /\ z' = z + 1 /\ Well(z')) =>
             \A a \in {a1, a2} : NoSmaller(H3(z'), H(a, z'), H3(z), H(a, z)) ]_vars
ZeroLevelIsVariance == (phase = "level" /\ z = 0) => H(a1, 0) = a1 * a1 * m /\ H3(0) = c * c * m
Inv == Ordered /\ MinAtMostMax /\ ZeroLevelIsVariance
Emit == phase = "done" =>
  CSVWrite("%1$s", <<ToJson([a |-> <<a1, a2, c>>, m |-> m, opt |-> opt])>>, IOEnv.CASES)
=============================================================================
