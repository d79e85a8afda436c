------------------------------ MODULE Pointing ------------------------------
(* Controlled attitude: the main body direction points exactly at the main target, the second body direction as close to
   the second target as that allows; the angular velocity is the one that led from the last attitude to this one.
   Positions in 1000 km, velocities in km/s, altitude of the target in km; attitude a = rows of the matrix from the
   inertial to the body frame (1e-4).
   Anchors: dynamics/attitude/{controlled_attitude,initialize_attitude}.cpp                                              *)
EXTENDS VTGeo, TLC
VARIABLES cf, wd, loc, a, seen, out
vars == <<cf, wd, loc, a, seen, out>>
None == [none |-> TRUE]
Is(v) == "none" \notin DOMAIN v
A0(q) == LET m == Rot(q) IN [i \in 1..3 |-> [j \in 1..3 |-> TDiv(m[i][j] * 10000, N2(q))]]
Init == cf = None /\ wd = None /\ loc = None /\ a = A0(Id) /\ seen = FALSE /\ out = [k |-> "none"]
Modes == {"SUN_POINTING", "EARTH_CENTER_POINTING", "VELOCITY_DIRECTION_POINTING", "GROUND_SPEED_DIRECTION_POINTING", "ORBIT_NORMAL_POINTING", "EARTH_SURFACE_POINTING"}
Known == Modes \cup {"INERTIAL_STABILIZE"}
\* scaled so that the largest component is about 12000
Big(v) == LET m == Max2(Max2(Abs(v[1]), Abs(v[2])), Abs(v[3])) IN
          IF m = 0 THEN v ELSE IF m <= 12000 THEN [i \in 1..3 |-> v[i] * (12000 \div m)] ELSE [i \in 1..3 |-> TDiv(v[i], (m \div 12000) + 1)]
\* surface target in 100 m, inertial, for an Earth turned by g
Surf(g, C) == LET r == 63781 + 10 * C.alt p == 63568 + 10 * C.alt IN
  IF C.lat = 90 THEN <<0, 0, p>> ELSE IF C.lat = -90 THEN <<0, 0, -p>>
  ELSE LET an == g + 1000 * C.lon IN <<(r * C4(an)) \div 10000, (r * S4(an)) \div 10000, 0>>
Aim(mode, g, C, W, L) == Big(
  CASE mode = "SUN_POINTING" -> IF Is(L) THEN L.v ELSE [i \in 1..3 |-> W.sun[i] - W.p[i]]
    [] mode = "EARTH_CENTER_POINTING" -> IF Is(L) THEN [i \in 1..3 |-> -L.p[i]] ELSE [i \in 1..3 |-> -W.p[i]]
    [] mode = "VELOCITY_DIRECTION_POINTING" -> W.v
    [] mode = "GROUND_SPEED_DIRECTION_POINTING" -> LET x == <<-W.p[2], W.p[1], 0>> IN [i \in 1..3 |-> W.v[i] * 1000 - TDiv(7292 * x[i], 100)]
    [] mode = "ORBIT_NORMAL_POINTING" -> Crs(W.p, W.v)
    [] OTHER -> LET s == Surf(g, C) IN [i \in 1..3 |-> s[i] - 10000 * W.p[i]])
Target(mode, g) == Aim(mode, g, cf, wd, loc)
\* settings that make sense: two different targets, body directions 30 to 150 degrees apart
Works(m, s, bm, bs) == /\ m \in Known /\ s \in Known
                       /\ (m = "INERTIAL_STABILIZE" \/ (m # s /\ 4 * Dot(bm, bs) * Dot(bm, bs) <= 3 * N2(bm) * N2(bs)))
\* exactly at the limit is not judged
Edge(bm, bs) == 4 * Dot(bm, bs) * Dot(bm, bs) = 3 * N2(bm) * N2(bs)
Points == cf.on /\ cf.main \in Modes
Keep(e) == [main |-> e.main, sub |-> e.sub, bm |-> e.bm, bs |-> e.bs, lat |-> e.lat, lon |-> e.lon, alt |-> e.alt, rk |-> e.how = "init", on |-> Works(e.main, e.sub, e.bm, e.bs)]
Wd(e) == [sun |-> e.sun, p |-> e.p, v |-> e.v]
Next(e) == IF "r" \in DOMAIN e /\ "a" \in DOMAIN e.r THEN e.r.a ELSE a
Nothing == [k |-> "none"]
Do(e) ==
  \/ /\ e.op = "reset" /\ cf' = Keep(e) /\ wd' = Wd(e) /\ loc' = None /\ seen' = FALSE
     /\ LET first == e.how = "init" /\ cf'.on /\ e.main \in Modes IN
        /\ a' = IF first THEN Next(e) ELSE A0(e.q0)
        /\ out' = IF first THEN [k |-> "first"] ELSE [k |-> "still", w |-> FALSE]
  \/ /\ Is(cf)
     /\ \/ e.op = "move" /\ wd' = Wd(e) /\ UNCHANGED <<cf, loc, a, seen>> /\ out' = Nothing
        \/ e.op = "see" /\ loc' = [p |-> wd.p, v |-> [i \in 1..3 |-> wd.sun[i] - wd.p[i]]] /\ UNCHANGED <<cf, wd, a, seen>> /\ out' = Nothing
        \/ e.op = "mode" /\ ~cf.rk /\ cf.on /\ cf' = [cf EXCEPT !.main = e.main, !.sub = e.sub] /\ UNCHANGED <<wd, loc, a, seen>> /\ out' = Nothing
        \/ e.op = "aim" /\ ~cf.rk /\ cf.on /\ cf' = [cf EXCEPT !.bm = e.bm, !.bs = e.bs] /\ UNCHANGED <<wd, loc, a, seen>> /\ out' = Nothing
        \/ /\ e.op = "prop" /\ UNCHANGED <<cf, wd, loc>>
           /\ IF Points /\ ~cf.rk THEN a' = Next(e) /\ seen' = TRUE /\ out' = [k |-> "point"] ELSE UNCHANGED <<a, seen>> /\ out' = [k |-> "still", w |-> FALSE]
S3(v) == Abs(v[1]) + Abs(v[2]) + Abs(v[3])
Down(v) == [i \in 1..3 |-> TDiv(v[i], 10000)]
Good(m) == \A i \in 1..3 : \A j \in 1..3 : Abs(m[i][j]) <= 10001
\* the main direction exactly, the second in the half plane of the two
At(r, C, W, L) ==
  LET mi == Aim(C.main, r.g, C, W, L) si == Aim(C.sub, r.g, C, W, L)
      mb == Down(App(r.a, mi)) sb == Down(App(r.a, si))
      bm == C.bm bs == C.bs
      x == Crs(mb, bm) n1 == Crs(bm, sb) n2 == Crs(bm, bs) y == Crs(n1, n2) tol == 6 * S3(bm) * S3(n2)
  IN \/ S3(Down(Crs([i \in 1..3 |-> TDiv(mi[i], 2)], [i \in 1..3 |-> TDiv(si[i], 2)]))) < 200    \* both targets in (nearly) the same direction
     \/ Edge(bm, bs)
     \/ /\ Good(r.a) /\ r.n = 10000
        /\ S3(x) <= 12 * S3(bm) /\ Dot(mb, bm) > 0
        /\ S3(y) <= 3 * tol /\ Dot(n1, n2) > -tol
\* rotation from the last attitude to this one: sine of the angle times its axis, and its cosine
Step(r, a0) == LET D(i, j) == Dot(r.a[i], a0[j]) \div 10000 IN
  [s |-> <<(D(2, 3) - D(3, 2)) \div 2, (D(3, 1) - D(1, 3)) \div 2, (D(1, 2) - D(2, 1)) \div 2>>, c |-> D(1, 1) + D(2, 2) + D(3, 3)]
Rate(r, a0) == LET st == Step(r, a0) IN
  st.c < 20000 \/ \A i \in 1..3 : IF st.s[i] >= 0 THEN r.w[i] >= st.s[i] - 4 /\ r.w[i] <= st.s[i] + (st.s[i] * 22) \div 100 + 4
                                                  ELSE r.w[i] <= st.s[i] + 4 /\ r.w[i] >= st.s[i] + TDiv(st.s[i] * 22, 100) - 4
Match(e, o) ==
  LET r == e.r IN
  CASE o.k = "none" -> TRUE
    [] o.k = "still" -> Good(r.a) /\ (\A i \in 1..3 : \A j \in 1..3 : Near(r.a[i][j], a'[i][j], 3)) /\ (~seen' => r.w = Z3)
    [] o.k = "first" -> At(r, cf', wd', loc')
    [] OTHER -> /\ At(r, cf, wd, loc)
                /\ IF ~seen THEN r.w = Z3 ELSE Good(a) /\ Good(r.a) => Rate(r, a)
=============================================================================
