------------------------------ MODULE Relative ------------------------------
(* Several spacecraft: positions, velocities, distances and attitudes of each one as seen from each other one, in the
   inertial frame and in the frame (radial, along track, orbit normal) of the one that looks; and the relative orbit of a
   spacecraft about another one on a circular orbit.
   Positions in 1000 km, velocities in km/s (integers), attitudes as integer quaternions.  The relative orbit in metres,
   its velocities in metres per radian of the reference orbit, angles in milli-degrees.
   Anchors: simulation/multiple_spacecraft/relative_information.cpp, dynamics/orbit/relative_orbit.cpp,
            math_physics/orbit/relative_orbit_models.cpp                                                              *)
EXTENDS VTGeo, TLC
VARIABLES sp,   \* the spacecraft as they are now
          reg,  \* those known to each other
          hl,   \* the relative orbit
          out
vars == <<sp, reg, hl, out>>
None == [none |-> TRUE]
Is(x) == "none" \notin DOMAIN x
Init == sp = <<>> /\ reg = {} /\ hl = None /\ out = [k |-> "none"]
Nothing == [k |-> "none"]
\* --- Hill's equations, solved: x0, v0 the state at the start, t the angle gone (milli-degrees)
N5(x, c) == RDiv(x * RDiv(c, 10), 10000)
HP(x, v, t) == LET c == CosF(t) s == SinF(t) w == RDiv((t \div 1000) * 174533, 1000) + RDiv((t % 1000) * 17453, 100000) IN      \* w: 1e-4 rad
  << N5(x[1], 400000 - 3 * c) + N5(v[1], s) + N5(2 * v[2], 100000 - c),
     x[2] - RDiv(6 * w * x[1], 10000) + N5(6 * x[1], s) - N5(2 * v[1], 100000 - c) + N5(4 * v[2], s) - RDiv(3 * w * v[2], 10000),
     N5(x[3], c) + N5(v[3], s) >>
HV(x, v, t) == LET c == CosF(t) s == SinF(t) IN
  << N5(3 * x[1], s) + N5(v[1], c) + N5(2 * v[2], s),
     N5(-6 * x[1], 100000 - c) - N5(2 * v[1], s) + N5(v[2], 4 * c) - 3 * v[2],
     N5(-x[3], s) + N5(v[3], c) >>
\* far away: the turning of large vectors, split so that no product overflows
Split(F(_), x) == IF \A i \in 1..3 : Abs(x[i]) < 30000 THEN F(x)
                  ELSE LET hi == F([i \in 1..3 |-> 50 * (x[i] \div 1000)]) lo == F([i \in 1..3 |-> x[i] % 1000]) IN [i \in 1..3 |-> 20 * hi[i] + lo[i]]
ToI0(L, t, x) == RotZ(1000 * L.o, RotX(1000 * L.i, RotZ((1000 * L.u + t) % 360000, x)))
ToI(L, t, x) == Split(LAMBDA y : ToI0(L, t, y), x)
Rotating(x, v) == <<v[1] - x[2], v[2] + x[1], v[3]>>
Hill(L, t) == LET x == HP(L.x, L.v, t) v == HV(L.x, L.v, t) IN [k |-> "hill", x |-> x, v |-> v, xi |-> ToI(L, t, x), vi |-> ToI(L, t, Rotating(x, v))]
Do(e) ==
  \/ e.op = "reset" /\ ~e.hill /\ sp' = e.sp /\ reg' = {} /\ hl' = None /\ out' = Nothing
  \/ /\ Len(sp) > 0
     /\ \/ e.op = "reg" /\ e.id \notin reg /\ reg' = reg \cup {e.id} /\ UNCHANGED <<sp, hl>> /\ out' = Nothing
        \/ e.op = "rem" /\ e.id \in reg /\ reg' = reg \ {e.id} /\ UNCHANGED <<sp, hl>> /\ out' = Nothing
        \/ e.op = "put" /\ sp' = [sp EXCEPT ![e.id + 1] = [p |-> e.p, v |-> e.v, q |-> e.q]] /\ UNCHANGED <<reg, hl>> /\ out' = Nothing
        \/ e.op = "upd" /\ UNCHANGED <<sp, reg, hl>> /\ out' = [k |-> "all"]
  \/ e.op = "reset" /\ e.hill /\ sp' = <<>> /\ reg' = {} /\ hl' = [i |-> e.i, o |-> e.o, u |-> e.u, P |-> e.P, x |-> e.x, v |-> e.v, t |-> 0] /\ out' = Hill(hl', 0)
  \/ /\ Is(hl) /\ e.op = "go" /\ UNCHANGED <<sp, reg>>
     /\ hl' = [hl EXCEPT !.t = @ + ((e.n * e.dt) \div hl.P) * 360 + (((e.n * e.dt) % hl.P) * 360) \div hl.P]
     /\ out' = Hill(hl, hl'.t)
VN(a, b, tol) == \A i \in 1..3 : Near(a[i], b[i], tol)
Sub(a, b) == [i \in 1..3 |-> a[i] - b[i]]
Mx(v) == Max2(Max2(Abs(v[1]), Abs(v[2])), Abs(v[3]))
\* length in 1e-3
L3(v) == LET n == N2(v) IN IF n < 2000 THEN ISqrt(n * 1000000) ELSE IF n < 200000 THEN ISqrt(n * 10000) * 10 ELSE ISqrt(n) * 1000
\* g: components seen (in 1e-3) of the vector d (integers) along p, the normal p x v and their product
Rtn(g, d, p, v) ==
  LET n == Crs(p, v) t == Crs(n, p) IN
  /\ Mx(g) < 60000
  /\ Near(RDiv(g[1] * L3(p), 1000), 1000 * Dot(d, p), 5 + (L3(p) + Abs(g[1])) \div 500)
  /\ Near(RDiv(g[3] * (L3(n) \div 10), 100), 1000 * Dot(d, n), 10 + L3(n) \div 500 + Abs(g[3]) \div 50)
  /\ Near(N2([i \in 1..3 |-> RDiv(g[i], 10)]), 10000 * N2(d), 30 + Mx(g) \div 3)
  /\ (Abs(g[2]) > 3 => (g[2] > 0) = (Dot(d, t) > 0))
\* the relative velocity in the turning frame: inertial one less the turning of the frame, in units 1 / p2
Turned(a, b) == LET d == Sub(a.p, b.p) n == Crs(b.p, b.v) w == Crs(n, d) p2 == N2(b.p) IN [i \in 1..3 |-> (a.v[i] - b.v[i]) * p2 - w[i]]
Small(x, s) == [i \in 1..3 |-> RDiv(x[i], s)]
RtnV(g, a, b) ==
  LET w == Turned(a, b) p2 == N2(b.p) p == b.p n == Crs(b.p, b.v) t == Crs(n, p)
      \* w / p2 in 1e-2 km/s
      c == [i \in 1..3 |-> RDiv(w[i] * 100, p2)] IN
  /\ Mx(g) < 60000
  /\ Near(RDiv(g[1] * L3(p), 10000), Dot(c, p), 5 + L3(p) \div 500 + Abs(g[1]) \div 2000)
  /\ Near(RDiv(g[3] * (L3(n) \div 10), 1000), Dot(c, n), 8 + L3(n) \div 500 + Abs(g[3]) \div 500)
  /\ Near(N2([i \in 1..3 |-> RDiv(g[i], 10)]), N2(c), 30 + 8 * Mx(c))
  /\ (Abs(g[2]) > 60 => (g[2] > 0) = (Dot(c, t) > 0))
Rel(qt, qr) == LET t == Rot(qt) s == Rot(qr) IN [i \in 1..3 |-> [j \in 1..3 |-> RDiv(10000 * Dot(t[i], s[j]), N2(qt) * N2(qr))]]
\* one pair: o what was read
Pair(o, a, b) ==
  LET d == Sub(a.p, b.p) IN
  /\ o.p = [i \in 1..3 |-> 1000 * d[i]]                      \* km
  /\ o.v = [i \in 1..3 |-> 1000 * (a.v[i] - b.v[i])]         \* m/s
  /\ Near(o.d, L3(d), 2 + L3(d) \div 1000)
  /\ (a # b => Rtn(o.pr, d, b.p, b.v) /\ RtnV(o.vr, a, b))
  /\ (a = b => Mx(o.pr) <= 1 /\ Mx(o.vr) <= 1)
  /\ \A i \in 1..3 : VN(o.c[i], Rel(a.q, b.q)[i], 3)
Contig == reg = 0..Cardinality(reg) - 1
\* the log: every ordered pair once in each of the four kinds, with what the getters give
Log(r) ==
  LET want == {<<k, t, s, x>> : k \in 0..3, t \in reg, s \in reg, x \in 0..2} IN
  /\ Len(r.hd) = Len(r.lv)
  /\ {h \in want : h[2] > h[3]} \subseteq {r.hd[i] : i \in 1..Len(r.hd)}
  /\ (Contig => Len(r.hd) = 12 * ((Cardinality(reg) * (Cardinality(reg) - 1)) \div 2))
  /\ \A i \in 1..Len(r.hd) : r.hd[i] \in want =>
        LET h == r.hd[i] o == r.pairs[CHOOSE j \in 1..Len(r.pairs) : r.pairs[j].t = h[2] /\ r.pairs[j].s = h[3]]
            y == (CASE h[1] = 0 -> o.p [] h[1] = 1 -> o.v [] h[1] = 2 -> o.pr [] OTHER -> o.vr)[h[4] + 1]
        IN h[2] # h[3] => Near(r.lv[i], y, 1 + Abs(y) \div 50000)
Match(e, o) ==
  LET r == e.r IN
  CASE o.k = "none" -> "exc" \notin DOMAIN r
    [] o.k = "hill" -> LET z == 3 + (Mx(o.x) + Mx(o.v)) \div 1500 IN
                       VN(r.xi, o.xi, z) /\ VN(r.vi, o.vi, z) /\ VN(r.x, o.x, z) /\ VN(r.v, o.v, z)
    [] OTHER -> /\ {<<r.pairs[j].t, r.pairs[j].s>> : j \in 1..Len(r.pairs)} = reg \X reg
                /\ \A j \in 1..Len(r.pairs) : Pair(r.pairs[j], sp[r.pairs[j].t + 1], sp[r.pairs[j].s + 1])
                /\ Log(r)
=============================================================================
