------------------------------ MODULE TraceC24 ------------------------------
(* C24: stereonets.                                                           *)
EXTENDS StatefulTrace, Net, FiniteSets
LOCAL C == INSTANCE Cone

C24Begin(e) == [i \in DOMAIN e.inter |-> [NewNet EXCEPT !.inter = e.inter[i]]]
Args(e) == IF e.o \in {"planes", "ellipses"} THEN e.what ELSE Tup(e.x)
C24Step(s, e) ==
  IF e.o = "open" THEN s
  ELSE [i \in DOMAIN s |-> Moved(IF i = e.net THEN Done(s[i], e.o, Args(e)) ELSE s[i], e.o, IF e.o \in {"move", "up"} THEN Args(e) ELSE <<>>)]
Same360(a, b) == RNear(RSub(Mod360(RAdd(RSub(a, b), 180)), 180), 0, "1e-7")
Pix(a, b) == RNear(a, b, RMul("1e-6", RAdd(1, RAdd(RAbs(a), RAbs(b)))))
(* e.probes: longitudes and latitudes *)
Probe(e, k) == <<El(e.probes, k, 1), El(e.probes, k, 2)>>
Where(n, p) == OnNet(n.scale, n.mid, n.rot, p)
Sees(e, n, r) == \A k \in 1 .. e.probes.s[1] : RLt(Away(n.rot, Probe(e, k)), 170) =>
  LET w == Where(n, Probe(e, k)) IN RFinite(El(r.at, k, 1)) /\ Pix(El(r.at, k, 1), w[1]) /\ Pix(El(r.at, k, 2), w[2])
ClipOf(n) == IF RLt(n.clip, 89) THEN n.clip ELSE R(90)
Drawn(q, want) == Len(q) = Len(want) /\ \A i \in DOMAIN q :
  /\ q[i].uid = want[i].uid /\ q[i].errors = 1 /\ q[i].own = 1 /\ q[i].fill = want[i].fill /\ q[i].con = want[i].con
Lined(q, want) == \A i \in DOMAIN q : i \in DOMAIN want => q[i].nominals = 1 /\ q[i].loose = want[i].loose
(* the band lies between the two sheets of the error cone, its line is the    *)
(* plane, and the ellipses lie on the cone of poles of their level            *)
Points(A, out) == TLCEval([k \in 1 .. out.s[1] |-> C!InFrame(A, C!Natural(RRad(El(out, k, 1)), RRad(El(out, k, 2))))])
Few(q, n) == Len(q) = n /\ \A i \in DOMAIN q : q[i].s = <<4, 2>> /\ Finite(q[i])
OnSheet(h, z, ps) == LET s == C!Roots(h) IN \A k \in DOMAIN ps : Near(ps[k], C!ConeDir(s, z, C!ConeParam(s, ps[k])), "1e-6")
OnPole(h, level, sg, ps) == LET s == C!Roots(h) IN \A k \in DOMAIN ps : Near(ps[k], C!DualDir(s, level, sg, C!DualParam(s, ps[k], sg)), "1e-6")
Bands(q, want) == \A i \in DOMAIN q : i \in DOMAIN want =>
  LET A == Mat(want[i].axes)
      h == Tup(want[i].h)
  IN /\ Few(q[i].rings, 2) /\ Few(q[i].line, 1)
     /\ OnSheet(h, 0, Points(A, q[i].line[1]))
     /\ \E j \in {1, 2} : OnSheet(h, 1, Points(A, q[i].rings[j])) /\ OnSheet(h, -1, Points(A, q[i].rings[3 - j]))
Ovals(q, want) == \A i \in DOMAIN q : i \in DOMAIN want =>
  LET A == Mat(want[i].axes)
      h == Tup(want[i].h)
  IN /\ Few(q[i].rings, 2)
     /\ \E j \in {1, 2} : OnPole(h, Num(want[i].level), 1, Points(A, q[i].rings[j])) /\ OnPole(h, Num(want[i].level), -1, Points(A, q[i].rings[3 - j]))
(* by container: the order in which containers were made *)
Tall == {"Up", "Down"}
Labelled(n, r) ==
  /\ {r.labels[i].name : i \in DOMAIN r.labels} = DOMAIN Compass /\ Len(r.labels) = 6
  /\ \A i \in DOMAIN r.labels : r.labels[i].name \in DOMAIN Compass =>
       LET p == Compass[r.labels[i].name]
           a == Away(n.rot, p)
           w == Where(n, p)
           t == r.labels[i].at
           least == IF r.labels[i].name \in Tall THEN R(45) ELSE R("0.572957795")
       IN /\ RLt("90.573", a) => r.labels[i].shown = 0
          /\ RLt(a, RSub(least, "1e-5")) => r.labels[i].shown = 0
          /\ RLt(RAdd(least, "1e-5"), a) /\ RLt(a, "90.5729") => r.labels[i].shown = 1
          /\ r.labels[i].shown = 1 => IF t.s = <<2>> THEN RLe(RAbs(RSub(At(t, 1), w[1])), "3.001") /\ RLe(RAbs(RSub(At(t, 2), w[2])), "12.001") ELSE FALSE
(* meridians at every multiple of the first step and at the four quarters,    *)
(* which reach the poles; parallels at every multiple of the second           *)
Whole(x, k) == LET q == RDiv(x, k) IN RNear(q, RFloor(RAdd(q, "0.5")), "1e-9")
Gridded(n, q) ==
  LET ms == {i \in DOMAIN q : q[i].kind = "meridian"}
      ls == {i \in DOMAIN q : q[i].kind = "parallel"}
      quarter(i) == Whole(Num(q[i].at), 90)
      long(i, d) == RNear(At(q[i].ends, 1), RSub(d, 90), "1e-3") /\ RNear(At(q[i].ends, 2), RSub(90, d), "1e-3")
      extra == IF Whole(R(90), n.grid[1]) THEN 0 ELSE 2
  IN /\ ms \cup ls = DOMAIN q
     /\ \A i \in ms : Whole(Num(q[i].at), n.grid[1]) \/ quarter(i)
     /\ \A i \in ms : IF quarter(i) THEN long(i, 0) ELSE long(i, n.grid[2])
     /\ \A i \in ls : Whole(Num(q[i].at), n.grid[2]) /\ RNear(At(q[i].ends, 1), -180, "1e-3") /\ RNear(At(q[i].ends, 2), 180, "1e-3")
     /\ REq(Cardinality({q[i].at : i \in ms}), RAdd(RDiv(360, n.grid[1]), extra))
     /\ REq(Cardinality({q[i].at : i \in ls}), RSub(RDiv(180, n.grid[2]), 1))
One(e, n, r, was) ==
  << Must("net-getters", FinNum(r.size) /\ REq(Num(r.size), n.size) /\ REq(Num(r.margin), n.margin) /\ REq(Num(r.clip), n.clip)),
     Must("net-turned", FinVec(r.rot, 3) /\ Same360(At(r.rot, 1), n.rot[1]) /\ RNear(At(r.rot, 2), n.rot[2], "1e-7") /\ REq(At(r.rot, 3), 0)),
     Clause("net-fits-its-square", n.set = 1, RNear(Num(r.scale), n.scale, RMul("1e-9", n.scale)) /\ Pix(At(r.mid, 1), n.mid) /\ Pix(At(r.mid, 2), n.mid)),
     Clause("net-equal-area", n.set = 1, Sees(e, n, r)),
     Clause("net-middle", n.set = 1, FinVec(r.middle, 2) /\ RLt(Away(n.rot, Tup(r.middle)), "1e-5")),
     Clause("net-clipped", n.set = 1, RNear(Num(r.pclip), ClipOf(n), "1e-9")),
     Clause("page-size", n.up = 1, FinNum(r.width) /\ REq(Num(r.width), n.size) /\ REq(Num(r.height), n.size)),
     Clause("drawn-as-seen-now", n.up = 1 /\ n.fresh = 1, r.stale = 0 /\ r.paths >= 2),
     Clause("graticule-as-asked", e.o = "mount" /\ was.up = 0 /\ n.up = 1, r.grids = 1 /\ Gridded(n, r.grid)),
     Clause("planes-drawn", n.planes # <<>>, Drawn(r.planes, n.planes) /\ Lined(r.planes, n.planes)),
     Clause("poles-drawn", n.poles # <<>>, Drawn(r.poles, n.poles)),
     Clause("bands-of-their-planes", n.planes # <<>> /\ e.o \in {"planes", "ellipses"}, Bands(r.planes, n.planes)),
     Clause("ellipses-of-their-level", n.poles # <<>> /\ e.o \in {"planes", "ellipses"}, Ovals(r.poles, n.poles)),
     Clause("nothing-else-drawn", n.up = 1, Len(r.planes) = Len(n.planes) /\ Len(r.poles) = Len(n.poles)),
     Clause("labels-name-directions", n.up = 1 /\ n.labels = 1, Labelled(n, r)),
     Clause("fixed-labels", n.compass # {}, {r.compass[i].name : i \in DOMAIN r.compass} = n.compass /\ Len(r.compass) = Cardinality(n.compass)
              /\ \A i \in DOMAIN r.compass : r.compass[i].name \in n.compass => Beyond(n, r.compass[i].name, Tup(r.compass[i].at))),
     Clause("dip-labels", "N" \in n.compass, Len(r.dips) >= 1 /\ \A i \in DOMAIN r.dips : FinNum(r.dips[i].value) /\
              LET w == Where(n, <<R(220), RSub(90, Num(r.dips[i].value))>>) IN Pix(At(r.dips[i].at, 1), w[1]) /\ Pix(At(r.dips[i].at, 2), w[2])),
     Clause("listeners-told", n.up = 1 /\ n.rot # was.rot /\ was.up = 1 /\ e.o # "clip", r.turns > e.before[1]) >>
RECURSIVE Each(_, _, _, _)
Each(e, s, t, i) == IF i > Len(t) THEN <<>> ELSE One([e EXCEPT !.before = <<e.before[i]>>], t[i], e.looks[i], s[i]) \o Each(e, s, t, i + 1)
C24Verdict(s, e) == Each(e, s, TLCEval(C24Step(s, e)), 1)
=============================================================================
