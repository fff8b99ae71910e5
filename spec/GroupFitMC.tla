----------------------------- MODULE GroupFitMC -----------------------------
(* Pooling of member clouds, in exact integer arithmetic.  A group whose      *)
(* members lie on one plane pools the points as they are; otherwise members   *)
(* are parallel and are centred first.  Scatters are kept multiplied by the   *)
(* number of points.  Invariants: the parallel-axis theorem, independence of  *)
(* the order of members, and independence of the position of members when     *)
(* they are centred.                                                          *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, CSV, IOUtils
CONSTANTS Clouds, Shifts, MaxMembers, Thin
VARIABLES members, same

Library == << << <<0,0,0>>, <<4,0,0>>, <<0,4,0>>, <<4,4,4>> >>,
              << <<2,0,1>>, <<-2,0,1>>, <<0,3,-1>>, <<0,-3,-1>>, <<5,5,0>> >>,
              << <<1,2,3>>, <<3,1,2>>, <<2,3,1>> >>,
              << <<0,0,0>>, <<6,0,3>>, <<0,6,3>>, <<6,6,6>>, <<3,3,4>> >>,
              << <<0,0,5>>, <<1,0,-5>>, <<0,1,5>>, <<1,1,-5>> >> >>
Shift == << <<0,0,0>>, <<7,-3,2>>, <<-20,11,40>> >>
Pts(m) == [i \in DOMAIN Library[m[1]] |-> [j \in 1 .. 3 |-> Library[m[1]][i][j] + Shift[m[2]][j]]]
RECURSIVE SumTo(_, _)
SumTo(f, k) == IF k = 0 THEN 0 ELSE f[k] + SumTo(f, k - 1)
Sum(f, s) == LET g == TLCEval(f) IN SumTo(g, Len(g))
SumOver(p, j) == Sum([i \in DOMAIN p |-> p[i][j]], DOMAIN p)
Prod(p, i, j) == Sum([k \in DOMAIN p |-> p[k][i] * p[k][j]], DOMAIN p)
(* n * scatter about the mean *)
NS(p, i, j) == Len(p) * Prod(p, i, j) - SumOver(p, i) * SumOver(p, j)
RECURSIVE Pool(_, _)
Pool(ms, k) == IF k > Len(ms) THEN <<>> ELSE Pts(ms[k]) \o Pool(ms, k + 1)
RECURSIVE Size(_, _)
Size(ms, k) == IF k > Len(ms) THEN 0 ELSE Len(Library[ms[k][1]]) + Size(ms, k + 1)
L60 == 60          \* multiple of every library size: scatters become integers
Own(m, i, j) == LET p == Pts(m) IN (L60 \div Len(p)) * NS(p, i, j)      \* 60 * scatter
RECURSIVE SumOwn(_, _, _, _)
SumOwn(ms, k, i, j) == IF k > Len(ms) THEN 0 ELSE Own(ms[k], i, j) + SumOwn(ms, k + 1, i, j)
Weighted(ms, k) == LET p == Pts(ms[k]) IN [j \in 1 .. 3 |-> SumOver(p, j)]

Init == members = <<>> /\ same \in {0, 1}
H(ms) == LET RECURSIVE F(_)
             F(k) == IF k > Len(ms) THEN 0 ELSE (3 * ms[k][1] + ms[k][2]) * k + F(k + 1)
         IN F(1)
Add == /\ Len(members) < MaxMembers
       /\ \E c \in Clouds, s \in Shifts :
            /\ Len(members) >= 2 => H(Append(members, <<c, s>>)) % Thin = 0
            /\ members' = Append(members, <<c, s>>)
       /\ UNCHANGED same
Spec == Init /\ [][Add]_<<members, same>>

Some == members # <<>>
(* parallel-axis theorem: 60 n S = n * sum_k 60 S_k + 60 (n sum_k n_k c_k c_k' - (sum)(sum)') *)
ParallelAxis == Some =>
  LET p == TLCEval(Pool(members, 1))
      n == Len(p)
      between(i, j) == Sum([k \in DOMAIN members |->
            (L60 \div Len(Library[members[k][1]])) * Weighted(members, k)[i] * Weighted(members, k)[j]], DOMAIN members)
  IN \A i, j \in 1 .. 3 :
       L60 * NS(p, i, j) = n * SumOwn(members, 1, i, j) + n * between(i, j) - L60 * SumOver(p, i) * SumOver(p, j)
Rev(ms) == [k \in DOMAIN ms |-> ms[Len(ms) + 1 - k]]
OrderIrrelevant == Some => \A i, j \in 1 .. 3 :
   NS(TLCEval(Pool(members, 1)), i, j) = NS(TLCEval(Pool(Rev(members), 1)), i, j) /\ SumOwn(members, 1, i, j) = SumOwn(Rev(members), 1, i, j)
PositionIrrelevant == Some => \A i, j \in 1 .. 3 :
   SumOwn(members, 1, i, j) = SumOwn([k \in DOMAIN members |-> <<members[k][1], 1>>], 1, i, j)
Emit == Some => CSVWrite("%1$s", <<ToJson([same |-> same, members |-> [k \in DOMAIN members |-> Pts(members[k])]])>>, IOEnv.CASES)
=============================================================================
