------------------------------ MODULE Attitude ------------------------------
(* The rotation of a spacecraft: inertia, reaction wheel momentum, torque, and (with a flexible structure) the vibration of
   a cantilever.  Everything in the principal axes of the body: c[j] = coordinates of inertial axis j there (1e-4), rates
   in milli-degrees per second, times in milliseconds, momentum in kg m2 mdeg/s, torque in kg m2 mdeg/s2.
   The motion is known in closed form about a principal axis and for a symmetric body free of torque; otherwise angular
   momentum in the inertial frame changes by the torque only, and energy is kept without torque.
   Anchors: dynamics/attitude/{attitude,attitude_rk4,attitude_with_cantilever_vibration,initialize_attitude}.cpp,
            ode_attitude_with_cantilever_vibration.hpp                                                                     *)
EXTENDS VTGeo, TLC
VARIABLES b, c, w, h, tq, x, y, out
vars == <<b, c, w, h, tq, x, y, out>>
None == [none |-> TRUE]
Init == b = None /\ c = <<Z3, Z3, Z3>> /\ w = Z3 /\ h = Z3 /\ tq = Z3 /\ x = Z3 /\ y = Z3 /\ out = [k |-> "none"]
Is(v) == "none" \notin DOMAIN v
U(a) == [i \in 1..3 |-> IF i = a THEN 10000 ELSE 0]
\* coordinates of the inertial axes for a body attitude q and principal axes turned by p from the body's
Frame(p, q) == [j \in 1..3 |-> LET v == App(Rot(p), App(Rot(q), [i \in 1..3 |-> IF i = j THEN 1 ELSE 0])) IN [i \in 1..3 |-> TDiv(v[i] * 10000, N2(p) * N2(q))]]
Zer(v, a) == \A j \in 1..3 : j # a => v[j] = 0
Planar(a) == Zer(w, a) /\ Zer(h, a) /\ Zer(tq, a) /\ Zer(x, a) /\ Zer(y, a)
Others(a) == {1, 2, 3} \ {a}
Sym(a) == \E i \in Others(a) : \E j \in Others(a) : i # j /\ b.I[i] = b.I[j]
Pend == b.I # b.I0
Free == tq = Z3 /\ ~Pend /\ ~b.can
Top(a) == Free /\ Sym(a) /\ Zer(h, a)
Mom(ii, ww) == [i \in 1..3 |-> ii[i] * ww[i] + h[i]]
L16(v) == [i \in 1..3 |-> TDiv(v[i], 16)]
InI(cc, v) == [j \in 1..3 |-> Dot(cc[j], v) \div 10000]
E4(ii, ww) == (ii[1] * TDiv(ww[1], 10) * TDiv(ww[1], 10) + ii[2] * TDiv(ww[2], 10) * TDiv(ww[2], 10) + ii[3] * TDiv(ww[3], 10) * TDiv(ww[3], 10)) \div 2
ETol(ii, ww) == 30 + ii[1] * Abs(TDiv(ww[1], 10)) + ii[2] * Abs(TDiv(ww[2], 10)) + ii[3] * Abs(TDiv(ww[3], 10))
Ax(P(_)) == IF P(1) THEN 1 ELSE IF P(2) THEN 2 ELSE IF P(3) THEN 3 ELSE 0
\* --- one axis: rate and angle after dt
PlanarGo(a, dt) ==
  LET dw == ((tq[a] * dt) \div 1000 - (b.I[a] - b.I0[a]) * w[a]) \div b.I[a]
      an == (w[a] * dt) \div 1000 + (dw * dt) \div 2000
  IN [k |-> "planar", c |-> [j \in 1..3 |-> Turn(U(a), an, c[j])], w |-> [w EXCEPT ![a] = @ + dw], x |-> x, y |-> y, tol |-> 6, wt |-> 4]
\* --- one axis with a cantilever: free vibration about the static deflection, total momentum follows the torque
Om(a) == ISqrt((b.kf * b.kf * (b.I[a] + b.J[a])) \div b.I[a])
Stat(a) == TDiv(-tq[a] * 3283, (b.I[a] + b.J[a]) * b.kf * b.kf)
\* x1, y1: deflection and its rate at the end
CanGo(a, dt, x1, y1) ==
  LET s == b.I[a] + b.J[a]
      w1 == w[a] + ((tq[a] * dt) \div 1000 - b.J[a] * (y1 - y[a])) \div s
      an == ((w[a] + (b.J[a] * y[a]) \div s) * dt) \div 1000 + (((tq[a] * dt) \div (1000 * s)) * dt) \div 2000 - (b.J[a] * (x1 - x[a])) \div s
  IN [k |-> "can", c |-> [j \in 1..3 |-> Turn(U(a), an, c[j])], w |-> [w EXCEPT ![a] = w1], x |-> [x EXCEPT ![a] = x1], y |-> [y EXCEPT ![a] = y1], tol |-> 12, wt |-> 12]
Vib(a, dt) == LET o == Om(a) f == o * dt xs == Stat(a) X == x[a] - xs Y == TDiv(y[a] * 573, o * 10) IN
              [x |-> xs + (X * C4(f) + Y * S4(f)) \div 10000, y |-> TDiv(((Y * C4(f) - X * S4(f)) \div 1000) * o, 573)]
\* --- symmetric about axis a, no torque: turns about its momentum and about its own axis
Scale(v) == LET m == Max2(Max2(Abs(v[1]), Abs(v[2])), Abs(v[3])) IN IF m < 15000 THEN 1 ELSE IF m < 60000 THEN 4 ELSE IF m < 240000 THEN 16 ELSE 64
TopGo(a, dt) ==
  LET o == CHOOSE j \in Others(a) : TRUE
      A == b.I[o]
      l == Mom(b.I, w) s == Scale(l) ls == [i \in 1..3 |-> TDiv(l[i], s)] n == ISqrt(N2(ls))
      u == [i \in 1..3 |-> TDiv(ls[i] * 10000, n)]
      fast == (((s * n) \div A) * (dt \div 10)) \div 100
      slow == ((((b.I[a] - A) * w[a] + h[a]) \div A) * (dt \div 10)) \div 100
  IN [k |-> "top", c |-> [j \in 1..3 |-> Turn(U(a), -slow, Turn(u, fast, c[j]))], w |-> Turn(U(a), -slow, w), x |-> x, y |-> y, tol |-> 25, wt |-> 40]
Same(k) == [k |-> k, c |-> c, w |-> w, x |-> x, y |-> y, tol |-> 0, wt |-> 0]
Class(dt, n) ==
  LET p == Ax(Planar) t == Ax(Top) IN
  IF b.can THEN (IF p > 0 /\ ~Pend THEN IF b.ze = 0 THEN LET v == Vib(p, dt) IN CanGo(p, dt, v.x, v.y) ELSE [Same("damp") EXCEPT !.tol = p] ELSE Same("any"))
  ELSE IF p > 0 /\ (~Pend \/ n = 1) THEN (IF w = Z3 /\ tq = Z3 THEN [Same("planar") EXCEPT !.tol = 2] ELSE PlanarGo(p, dt))
  ELSE IF t > 0 /\ Mom(b.I, w) # Z3 THEN TopGo(t, dt)
  ELSE IF Free THEN Same("free")
  ELSE IF ~Pend /\ (Abs(w[1]) + Abs(w[2]) + Abs(w[3])) * (dt \div 10) < 800000 THEN Same("short") ELSE Same("any")
Obs(e) == "r" \in DOMAIN e /\ "w" \in DOMAIN e.r
None4 == [k |-> "none"]
Do(e) ==
  \/ /\ e.op = "reset" /\ b' = [q |-> e.q, I |-> e.I, I0 |-> e.I, J |-> e.J, kf |-> e.kf, ze |-> e.ze, can |-> e.can]
     /\ c' = Frame(e.q, e.att) /\ w' = e.w /\ tq' = e.T /\ h' = Z3 /\ x' = Z3 /\ y' = Z3
     /\ out' = [k |-> "still", c |-> c', w |-> w', x |-> x', y |-> y', tol |-> 3, wt |-> 3]
  \/ /\ Is(b)
     /\ \/ e.op = "spin" /\ w' = e.w /\ UNCHANGED <<b, c, h, tq, x, y>> /\ out' = None4
        \/ e.op = "turn" /\ c' = Frame(b.q, e.q) /\ UNCHANGED <<b, w, h, tq, x, y>> /\ out' = None4
        \/ e.op = "wheel" /\ h' = e.h /\ UNCHANGED <<b, c, w, tq, x, y>> /\ out' = None4
        \/ e.op = "torque" /\ tq' = e.T /\ UNCHANGED <<b, c, w, h, x, y>> /\ out' = None4
        \/ e.op = "mass" /\ ~b.can /\ b' = [b EXCEPT !.I = e.I] /\ UNCHANGED <<c, w, h, tq, x, y>> /\ out' = None4
        \* nothing happens in no time
        \/ e.op = "again" /\ ~Pend /\ ~b.can /\ UNCHANGED <<b, c, w, h, tq, x, y>> /\ out' = [k |-> "still", c |-> c, w |-> w, x |-> x, y |-> y, tol |-> 3, wt |-> 3]
        \/ /\ e.op = "go"
           /\ LET o == Class(e.dt, e.n) IN
              /\ out' = o
              \* the motion goes on from where it was seen
              /\ IF Obs(e) THEN c' = e.r.c /\ w' = e.r.w /\ x' = e.r.x /\ y' = e.r.y ELSE c' = o.c /\ w' = o.w /\ x' = o.x /\ y' = o.y
           /\ b' = [b EXCEPT !.I0 = b.I] /\ UNCHANGED <<h, tq>>
VN(a1, a2, tol) == \A i \in 1..3 : Near(a1[i], a2[i], tol)
MN(a1, a2, tol) == \A i \in 1..3 : VN(a1[i], a2[i], tol)
\* what was read of momentum and energy goes with the rates seen
Read(r, ii, hh) == LET l == L16([i \in 1..3 |-> ii[i] * r.w[i] + hh[i]]) m == Max2(Max2(Abs(l[1]), Abs(l[2])), Abs(l[3])) IN
  /\ r.n = 10000
  /\ Near(r.e, E4(ii, r.w), ETol(ii, r.w))
  /\ (m < 26000 => Near(r.l, ISqrt(N2(l)), 4))
Closed(r, o) == MN(r.c, o.c, o.tol) /\ VN(r.w, o.w, o.wt + (Abs(o.w[1]) + Abs(o.w[2]) + Abs(o.w[3])) \div 4000) /\ VN(r.x, o.x, 6) /\ VN(r.y, o.y, 12)
Match(e, o) ==
  LET r == e.r IN
  IF o.k = "none" THEN TRUE
  ELSE /\ \A i \in 1..3 : OkNum(r.w[i]) /\ OkNum(r.x[i]) /\ OkNum(r.y[i]) /\ \A j \in 1..3 : OkNum(r.c[j][i])
       /\ Read(r, b'.I, h')
       /\ CASE o.k = "damp" -> LET p == CanGo(o.tol, e.dt, r.x[o.tol], r.y[o.tol]) IN
                               /\ Closed(r, p)
                               \* long enough, and it comes to rest
                               /\ (b.ze * b.kf * (e.dt \div 1000) > 60000 => Near(r.x[o.tol], Stat(o.tol), 3) /\ Abs(r.y[o.tol]) <= 3)
            [] o.k = "free" -> /\ VN(InI(r.c, L16(Mom(b.I, r.w))), InI(c, L16(Mom(b.I, w))), 8)
                               /\ Near(E4(b.I, r.w), E4(b.I, w), ETol(b.I, w))
            [] o.k = "short" -> LET l0 == InI(c, L16(Mom(b.I, w))) l1 == InI(r.c, L16(Mom(b.I, r.w)))
                                    t16 == [i \in 1..3 |-> TDiv(tq[i] * (e.dt \div 10), 1600)] k0 == InI(c, t16) k1 == InI(r.c, t16) IN
                                \A i \in 1..3 : Near(l1[i] - l0[i], (k0[i] + k1[i]) \div 2, 8 + (Abs(t16[1]) + Abs(t16[2]) + Abs(t16[3])) \div 200)
            [] o.k = "any" -> TRUE
            [] OTHER -> Closed(r, o)
=============================================================================
