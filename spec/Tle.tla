---------------------------------- MODULE Tle ---------------------------------
(* Orbits from two-line elements: the mean anomaly grows with the mean motion, node and perigee drift with the oblateness of
   the Earth.  What a satellite does at a time depends on its elements and that time only.
   Anchors: dynamics/orbit/{sgp4_orbit_propagation,initialize_orbit}.cpp, math_physics/orbit/sgp4/*.cpp
   Elements: n mean motion (1e-4 rev/day), i, o (node), w (perigee), m (mean anomaly) in milli-degrees, e in 1e-4, b drag, epoch y d f/8.   *)
EXTENDS VTGeo, TLC
VARIABLES sat, now, on, out
vars == <<sat, now, on, out>>
\* semi-major axis [0.1 km] and 1.5 J2 (R/a)^2 [1e-7]
Axis(n) == CASE n = 155000 -> 67949 [] n = 150000 -> 69450 [] n = 142000 -> 72035 [] n = 130000 -> 76402 [] n = 70000 -> 115435 [] n = 20056 -> 265607 [] OTHER -> 421652
Kj(n) == CASE n = 155000 -> 14308 [] n = 150000 -> 13696 [] n = 142000 -> 12731 [] n = 130000 -> 11317 [] n = 70000 -> 4958 [] n = 20056 -> 936 [] OTHER -> 372
Deep(s) == s.n < 60000
\* what the satellite has turned since its epoch, and what the oblateness makes of it (milli-degrees)
Turned(s, t) == RDiv(RDiv(s.n, 2) * t, 20)
Drift(s, t) == RDiv(RDiv(Turned(s, t), 100) * RDiv(Kj(s.n), 10), 10000)
Node(s, t) == s.o - RDiv(Drift(s, t) * C4(s.i), 10000)
Peri(s, t) == s.w + RDiv(Drift(s, t) * (5 * RDiv(C4(s.i) * C4(s.i), 10000) - 10000), 20000)
Anom(s, t) == s.m + Turned(s, t)
\* the true anomaly of a nearly circular orbit (180/pi 1e3 = 57296), the radius in 0.1 km
True(s, t) == LET M == Anom(s, t) IN M + RDiv(RDiv(2 * s.e * 57296, 100) * S4(M), 1000000) + RDiv((RDiv(5 * s.e * s.e, 400) * 573) * S4(2 * M), 100000000)
Rad(s, t) == LET M == Anom(s, t) IN Axis(s.n) + RDiv(Axis(s.n) * (RDiv(s.e * s.e, 20000) - RDiv(s.e * C4(M), 10000) - RDiv(RDiv(s.e * s.e, 2) * C4(2 * M), 100000000)), 10000)
Dir(s, t) == LET u == Peri(s, t) + True(s, t) o == Node(s, t) IN
  << RDiv(C4(o) * C4(u) - RDiv(S4(o) * C4(s.i), 10000) * S4(u), 10000), RDiv(S4(o) * C4(u) + RDiv(C4(o) * C4(s.i), 10000) * S4(u), 10000), RDiv(S4(s.i) * S4(u), 10000) >>
\* position in 0.1 km
Pos(s, t) == LET d == Dir(s, t) IN LET r == RDiv(Rad(s, t), 10) IN [i \in 1..3 |-> RDiv(r * d[i], 1000)]
\* the theory has more terms than this: 35 km near the Earth, more for longer times, drag, and far away
Tol(s, t) == IF Deep(s) THEN 1500 ELSE 350 + RDiv(t, 20) + (IF s.b > 0 THEN 3000 + t * 10 ELSE 0)
Init == sat = <<>> /\ now = <<>> /\ on = <<>> /\ out = [k |-> "none"]
Do(e) ==
  \/ e.op = "reset" /\ sat' = e.s /\ now' = [i \in 1..Len(e.s) |-> e.s[i].t0] /\ on' = [i \in 1..Len(e.s) |-> TRUE] /\ out' = [k |-> "all"]
  \/ e.op = "flag" /\ on' = [on EXCEPT ![e.k + 1] = e.on] /\ UNCHANGED <<sat, now>> /\ out' = [k |-> "none"]
  \/ e.op = "go" /\ now' = (IF on[e.k + 1] THEN [now EXCEPT ![e.k + 1] = e.t] ELSE now) /\ UNCHANGED <<sat, on>> /\ out' = [k |-> "go", s |-> sat[e.k + 1], t |-> IF on[e.k + 1] THEN e.t ELSE now[e.k + 1], on |-> on[e.k + 1]]
  \* far beyond the end of a decaying orbit: not judged where, but it is somewhere
  \/ e.op = "long" /\ now' = [now EXCEPT ![e.k + 1] = -1] /\ UNCHANGED <<sat, on>> /\ out' = [k |-> "long"]
Where(o, s, t, tol) == LET p == Pos(s, t) IN \A i \in 1..3 : OkNum(o[i]) /\ Near(o[i], p[i], tol)
Match(e, o) ==
  CASE o.k = "none" -> TRUE
    [] o.k = "all" -> Len(e.r.p) = Len(e.s) /\ \A j \in 1..Len(e.s) : Where(e.r.p[j], e.s[j], e.s[j].t0, Tol(e.s[j], Abs(e.s[j].t0)))
    [] o.k = "go" -> /\ e.r.fin /\ (o.t >= 0 => Where(e.r.p, o.s, o.t, Tol(o.s, Abs(o.t))))
                     \* the same as a satellite that has never been anywhere else; the velocity is how the position moves; the rotation of the Earth keeps the distance
                     /\ (o.on => Abs(e.r.d) <= (IF Deep(o.s) THEN 2000 ELSE 10) /\ \A i \in 1..3 : OkNum(e.r.v[i]) /\ Near(e.r.v[i], e.r.dp[i], 150)) /\ Near(e.r.q, 0, 1)
    [] OTHER -> e.r.fin /\ e.r.r >= 0 /\ e.r.r < 100000
=============================================================================
