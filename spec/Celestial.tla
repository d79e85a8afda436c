----------------------------- MODULE Celestial -----------------------------
(* Celestial bodies seen from the centre body and from a spacecraft, in the
   inertial and in the body frame.  Positions in km, velocities in km/s,
   integer; attitude as an integer quaternion (x, y, z, w), normalised on use;
   angular velocity in 1/1024 rad/s.
   Anchors: environment/global/celestial_information.*, environment/local/local_celestial_information.* *)
EXTENDS VTLib, TLC
VARIABLES sel, center, eph, glob, att, loc, out
vars == <<sel, center, eph, glob, att, loc, out>>
Z3 == <<0, 0, 0>>
Sub(a, b) == <<a[1] - b[1], a[2] - b[2], a[3] - b[3]>>
Cross(a, b) == <<a[2] * b[3] - a[3] * b[2], a[3] * b[1] - a[1] * b[3], a[1] * b[2] - a[2] * b[1]>>
Names == {"SUN", "EARTH", "MOON", "MARS", "VENUS"}
Eph0 == [b \in Names |-> [p |-> Z3, v |-> Z3]]
Q0 == <<0, 0, 0, 1>>
Init == sel = <<>> /\ center = "EARTH" /\ eph = Eph0 /\ glob = <<>> /\ att = [q |-> Q0, w |-> Z3] /\ loc = <<>> /\ out = [ok |-> TRUE]
N2(q) == q[1] * q[1] + q[2] * q[2] + q[3] * q[3] + q[4] * q[4]
\* |q|^2 times the vector in the body frame
Rot(q, v) == LET x == q[1] y == q[2] z == q[3] w == q[4] IN
  <<(w*w + x*x - y*y - z*z) * v[1] + 2 * (x*y + w*z) * v[2] + 2 * (x*z - w*y) * v[3],
    2 * (x*y - w*z) * v[1] + (w*w - x*x + y*y - z*z) * v[2] + 2 * (y*z + w*x) * v[3],
    2 * (x*z + w*y) * v[1] + 2 * (y*z - w*x) * v[2] + (w*w - x*x - y*y + z*z) * v[3]>>
Reset(e) == /\ sel' = e.sel /\ center' = e.center /\ eph' = Eph0
            /\ glob' = [i \in 1..Len(e.sel) |-> [p |-> Z3, v |-> Z3]]
            /\ att' = [q |-> Q0, w |-> Z3] /\ loc' = <<>> /\ out' = [ok |-> TRUE]
Body(e) == /\ eph' = [eph EXCEPT ![e.b] = [p |-> e.x, v |-> e.v]] /\ out' = [ok |-> TRUE] /\ UNCHANGED <<sel, center, glob, att, loc>>
Upd(e) == /\ glob' = [i \in 1..Len(sel) |-> [p |-> Sub(eph[sel[i]].p, eph[center].p), v |-> Sub(eph[sel[i]].v, eph[center].v)]]
          /\ out' = [g |-> [i \in 1..Len(sel) |-> <<glob'[i].p, glob'[i].v>>]]
          /\ UNCHANGED <<sel, center, eph, att, loc>>
\* relative to another body: a name that is not selected stands for the first of the list
Idx(b) == IF \E i \in 1..Len(sel) : sel[i] = b THEN CHOOSE i \in 1..Len(sel) : sel[i] = b ELSE 1
Rel(e) == /\ e.a \in SeqRange(sel) /\ e.b \in SeqRange(sel)
          /\ out' = [p |-> Sub(glob[Idx(e.a)].p, glob[Idx(e.b)].p), v |-> Sub(glob[Idx(e.a)].v, glob[Idx(e.b)].v)]
          /\ UNCHANGED <<sel, center, eph, glob, att, loc>>
Id(e) == /\ out' = IF e.i < Len(sel) THEN [p |-> glob[e.i + 1].p, v |-> glob[e.i + 1].v] ELSE [p |-> Z3, v |-> Z3]
         /\ UNCHANGED <<sel, center, eph, glob, att, loc>>
Loc(e) == /\ att' = [q |-> e.q, w |-> e.w]
          /\ loc' = [i \in 1..Len(sel) |-> [p |-> Sub(glob[i].p, e.x), v |-> Sub(glob[i].v, e.v)]]
          /\ out' = [l |-> loc', q |-> e.q, w |-> e.w, ctr |-> IF center \in SeqRange(sel) THEN loc'[Idx(center)].p ELSE Z3, has |-> center \in SeqRange(sel)]
          /\ UNCHANGED <<sel, center, eph, glob>>
Do(e) == \/ e.op = "reset" /\ Reset(e)
         \/ sel # <<>> /\ \/ e.op = "body" /\ Body(e)
                          \/ e.op = "upd" /\ Upd(e)
                          \/ e.op = "rel" /\ Rel(e)
                          \/ e.op = "id" /\ Id(e)
                          \/ e.op = "loc" /\ Loc(e)
Vec(r, v, n) == \A k \in 1..3 : Abs(r[k]) < 50000000 /\ Near(n * r[k], v[k], n * (1 + Abs(r[k]) \div 50000))
LocOk(r, o) ==
  /\ Len(r.l) = Len(o.l)
  /\ \A i \in 1..Len(o.l) :
       LET x == r.l[i]  pb == Rot(o.q, o.l[i].p)  n == N2(o.q) IN
       /\ x.i = o.l[i].p
       /\ Vec(x.b, pb, n)
       \* velocity seen in the rotating frame, in 1/1024 km/s: R v - w x R r
       /\ Vec(x.vb, [k \in 1..3 |-> 1024 * Rot(o.q, o.l[i].v)[k] - Cross(o.w, pb)[k]], n)
  /\ o.has => r.zci = o.ctr /\ Vec(r.zcb, Rot(o.q, o.ctr), N2(o.q))
Match(e, o) == IF e.op = "loc" THEN LocOk(e.r, o) ELSE e.r = o
=============================================================================
