--------------------------------- MODULE Net ---------------------------------
(* A stereonet: Lambert's equal-area projection about the direction it is     *)
(* turned to, in a square.  Directions are longitude and latitude in degrees: *)
(* north is at longitude 180, east at 90, up at latitude 90.                  *)
EXTENDS Attitude
LOCAL INSTANCE TLC
LOCAL INSTANCE Integers
LOCAL INSTANCE Sequences

Direction(lon, lat) == LET a == RRad(lon) b == RRad(lat) IN <<RMul(RCos(b), RCos(a)), RMul(RCos(b), RSin(a)), RSin(b)>>
(* the direction after turning by rot = <<longitude, latitude>>               *)
Turned(rot, p) ==
  LET d == Direction(RAdd(p[1], rot[1]), p[2])
      f == RRad(rot[2])
  IN <<RSub(RMul(d[1], RCos(f)), RMul(d[3], RSin(f))), d[2], RAdd(RMul(d[3], RCos(f)), RMul(d[1], RSin(f)))>>
OnNet(scale, mid, rot, p) ==
  LET t == Turned(rot, p)
      k == RMul(scale, RSqrt(RDiv(2, RAdd(1, t[1]))))
  IN <<RAdd(mid, RMul(k, t[2])), RSub(mid, RMul(k, t[3]))>>
(* degrees from the middle *)
Away(rot, p) == RDeg(RAcos(Turned(rot, p)[1]))
(* the scale of a net of the given size, margin and angle *)
ScaleOf(size, margin, clip) ==
  IF REq(clip, 90) THEN RSub(RDiv(size, "2.5"), margin)
  ELSE RDiv(RSub(RDiv(size, 2), margin), IF RLt(clip, 89) THEN RSin(RRad(clip)) ELSE R(1))
Clamp90(x) == RMax(-90, RMin(90, x))
Compass == [N |-> <<180, 0>>, E |-> <<90, 0>>, S |-> <<0, 0>>, W |-> <<-90, 0>>, Up |-> <<0, 90>>, Down |-> <<0, -90>>]

(* The machine.  A net: size, margin, clip, rot, scale (as last set), up (on  *)
(* the page), hold (dragging: where from and the rotation then), marks.       *)
NewNet == [size |-> R(300), margin |-> R(20), clip |-> R(90), rot |-> <<R(0), R(0)>>, scale |-> R(300), mid |-> R(0), set |-> 0,
           up |-> 0, inter |-> 1, hold |-> <<>>, planes |-> <<>>, poles |-> <<>>, labels |-> 0, fresh |-> 1, compass |-> {}, grid |-> <<R(10), R(10)>>]
(* fresh: everything drawn is as seen now (a new size or angle shows at the  *)
(* next drawing); labels: 1 if they are on and follow every turn             *)
Fitted(n) == [n EXCEPT !.fresh = 0, !.labels = IF n.up = 1 /\ n.labels = 1 THEN 2 ELSE n.labels, !.scale = ScaleOf(n.size, n.margin, n.clip), !.mid = RDiv(n.size, 2), !.set = 1]
Dragged(n, x) ==
  IF n.hold = <<>> THEN n
  ELSE LET h == n.hold
           l == RAdd(h[2][1], RDiv(RSub(x[1], h[1][1]), 3))
           f == Clamp90(RAdd(h[2][2], RDiv(RSub(h[1][2], x[2]), 3)))
       IN [n EXCEPT !.rot = <<l, f>>, !.fresh = 1]
(* an operation o (name and numbers x) on this net *)
Done(n, o, x) ==
  CASE o = "margin" -> [n EXCEPT !.margin = x[1]]
    [] o = "size" -> Fitted([n EXCEPT !.size = x[1]])
    [] o = "clip" -> Fitted([n EXCEPT !.clip = x[1], !.rot = <<R(0), R(-90)>>])
    [] o \in {"rotate", "center"} -> [n EXCEPT !.rot = <<x[1], x[2]>>, !.fresh = 1]
    [] o = "mount" -> [Fitted(n) EXCEPT !.up = 1, !.fresh = 1]
    [] o \in {"draw", "refresh"} -> [n EXCEPT !.fresh = 1]
    [] o = "planes" -> [n EXCEPT !.fresh = 1, !.planes = @ \o x]
    [] o = "ellipses" -> [n EXCEPT !.fresh = 1, !.poles = @ \o x]
    [] o = "down" -> IF n.inter = 1 /\ n.up = 1 THEN [n EXCEPT !.hold = <<x, n.rot>>] ELSE n
    [] o = "labels" -> [n EXCEPT !.labels = IF n.labels = 0 THEN 1 ELSE @, !.fresh = 0]
    [] o = "vertical" -> [n EXCEPT !.compass = {"N", "E", "S", "W"}, !.fresh = 1]
    [] o = "horizontal" -> [n EXCEPT !.compass = {"E", "W"}, !.fresh = 0]
    [] o = "graticule" -> [n EXCEPT !.grid = <<x[1], x[2]>>]
    [] OTHER -> n
(* a fixed label lies outside the circle in the direction it names *)
Beyond(n, name, at) ==
  LET w == OnNet(n.scale, n.mid, n.rot, Compass[name])
      u == Unit(<<RSub(w[1], n.mid), RSub(w[2], n.mid)>>)
      v == <<RSub(at[1], n.mid), RSub(at[2], n.mid)>>
  IN /\ RLe(RSub(RSub(RDiv(n.size, 2), n.margin), "1e-6"), RAdd(RMul(u[1], v[1]), RMul(u[2], v[2])))
     /\ RLe(RAbs(RSub(RMul(u[1], v[2]), RMul(u[2], v[1]))), "1e-6")
(* moves and releases of the pointer are seen by every net on the page *)
Moved(n, o, x) == CASE o = "move" -> Dragged(n, x) [] o = "up" -> [Dragged(n, x) EXCEPT !.hold = <<>>] [] OTHER -> n
=============================================================================
