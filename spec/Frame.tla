------------------------------- MODULE Frame -------------------------------
(* Changes of frame x |-> k M x + t acting on clouds and on fits.             *)
EXTENDS Attitude, Fit
LOCAL INSTANCE TLC

Identity == [M |-> Eye(3), k |-> R(1), t |-> <<R(0), R(0), R(0)>>]
Translate(f, d) == [f EXCEPT !.t = Vadd(@, d)]
Scale(f, k) == [f EXCEPT !.k = RMul(@, k), !.t = Vmul(k, @)]
Turn(f, G) == [f EXCEPT !.M = MM(G, @), !.t = MV(G, @)]
Image(f, x) == Vadd(Vmul(f.k, MV(f.M, x)), f.t)
(* signed permutation matrix: row i has sign s[i] in column p[i] *)
Signed(p, s) == TLCEval([i \in 1 .. 3 |-> [j \in 1 .. 3 |-> IF j = p[i] THEN R(s[i]) ELSE R(0)]])

(* axis i is isolated from the others: its direction is well conditioned *)
Isolated(sv, i) == \A j \in 1 .. 3 : j # i => RLt(RMul("1e-3", sv[1]), RAbs(RSub(sv[i], sv[j])))
=============================================================================
