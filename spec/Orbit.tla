------------------------------- MODULE Orbit -------------------------------
(* The motion of a spacecraft about the Earth: the orbit of two bodies, and what accelerations and forces make of it.
   Lengths in units of the semi-major axis a, times so that the mean motion is one: an orbit is its eccentricity (1/100),
   its three angles (degrees) and the mean anomaly now (milli-degrees); P is the period in seconds, integrations in ms.
   Positions and velocities observed in 1e-6, predicted in 1e-4 of a and n a; accelerations in 1e-6 of n2 a.
   Anchors: dynamics/orbit/{orbit,rk4_orbit_propagation,kepler_orbit_propagation,encke_orbit_propagation,
            initialize_orbit}.cpp, math_physics/orbit/{kepler_orbit,orbital_elements}.cpp                              *)
EXTENDS VTGeo, TLC
VARIABLES el,   \* the orbit, kind of propagation
          m,    \* mean anomaly at the time reached
          lag,  \* time passed without calculation (ms)
          on, free, acc, q,
          p, v, en, hv, ev, out
vars == <<el, m, lag, on, free, acc, q, p, v, en, hv, ev, out>>
None == [none |-> TRUE]
Is(x) == "none" \notin DOMAIN x
Init == el = None /\ m = 0 /\ lag = 0 /\ on = FALSE /\ free = FALSE /\ acc = Z3 /\ q = Id /\ p = Z3 /\ v = Z3 /\ en = 0 /\ hv = Z3 /\ ev = Z3 /\ out = [k |-> "none"]
\* --- Kepler
Mean(e, E) == LET s == TDiv(e * SinF(E), 100) IN E - (s * 5729 + TDiv(s * 578, 1000)) \div 10000
RECURSIVE Solve(_, _, _, _)
Solve(e, M, lo, hi) == IF hi - lo <= 1 THEN lo ELSE LET x == (lo + hi) \div 2 IN IF Mean(e, x) <= M THEN Solve(e, M, x, hi) ELSE Solve(e, M, lo, x)
Ecc(e, M) == Solve(e, M, 0, 360001)
B4(e) == ISqrt((10000 - e * e) * 10000)                      \* sqrt(1 - e2)
Turn3(L, x) == RotZ(1000 * L.o, RotX(1000 * L.i, RotZ(1000 * L.w, x)))
InPlane(e, E) == <<(CosF(E) - 1000 * e) \div 10, RDiv(B4(e) * SinF(E), 100000), 0>>
VelPlane(e, E) == LET d == 10000 - TDiv(e * CosF(E), 1000) IN <<RDiv(-SinF(E) * 1000, d), RDiv(RDiv(B4(e) * CosF(E), 100000) * 10000, d), 0>>
Where(L, M) == LET E == Ecc(L.e, M) IN [p |-> Turn3(L, InPlane(L.e, E)), v |-> Turn3(L, VelPlane(L.e, E))]
Up(x) == [i \in 1..3 |-> 100 * x[i]]
\* tolerance of the prediction (1e-4)
PTol(L) == IF L.e <= 30 THEN 4 ELSE IF L.e <= 60 THEN 8 ELSE IF L.e <= 75 THEN 16 ELSE 40
VTol(L) == IF L.e <= 30 THEN 6 ELSE IF L.e <= 60 THEN 20 ELSE IF L.e <= 75 THEN 80 ELSE 1500
Normal(L) == Turn3(L, <<0, 0, B4(L.e)>>)
Perigee(L) == Turn3(L, <<100 * L.e, 0, 0>>)
\* --- a short step under gravity and acceleration: angle th in 1e-5 rad
Cen(x) == [i \in 1..3 |-> TDiv(x[i], 100)]
Grav(x) == LET r == ISqrt(N2(Cen(x))) r3 == RDiv(RDiv(r * r, 10000) * r, 10000) IN [i \in 1..3 |-> -RDiv(TDiv(x[i], 10) * 10000, r3)]   \* 1e-5
Th(t) == IF t \div el.P >= 4 THEN 9999 ELSE RDiv(t * 6283, 10 * el.P)       \* t in ms
Kick(x0, v0, a, th) ==
  LET g0 == Grav(x0)
      mid == [i \in 1..3 |-> x0[i] + TDiv(TDiv(v0[i], 10) * th, 20000) + TDiv((g0[i] + TDiv(a[i], 10)) * ((th * th) \div 1000), 8000000)]
      gm == Grav(mid)
      v1 == [i \in 1..3 |-> v0[i] + TDiv(gm[i] * th, 10000) + TDiv(a[i] * th, 100000)]
  IN [p |-> [i \in 1..3 |-> x0[i] + TDiv(TDiv(v0[i] + v1[i], 20) * th, 10000)], v |-> v1]
\* --- steps
Obs(e) == "r" \in DOMAIN e /\ "p" \in DOMAIN e.r
Kep == el.kind = "kepler"
Adv(M, t) == (M + ((t \div el.P) * 360) + (((t % el.P) * 360) \div el.P)) % 360000     \* t in ms
Stay == [k |-> "still"]
Nothing == [k |-> "none"]
Note(e, np, nv) ==
  IF Obs(e) THEN p' = e.r.p /\ v' = e.r.v /\ en' = e.r.en /\ hv' = e.r.h /\ ev' = e.r.ev
  ELSE p' = np /\ v' = nv /\ en' = -500000 /\ hv' = Z3 /\ ev' = Z3
Aw(e) == [i \in 1..3 |-> acc[i] + (CASE e.f = "accel" -> e.a[i]
                                     [] e.f = "force_i" -> TDiv(e.a[i], e.mass)
                                     [] OTHER -> TDiv(App(Trp(Rot(e.q)), e.a)[i], N2(e.q) * e.mass))]
Do(e) ==
  \/ /\ e.op = "reset"
     /\ el' = [e |-> e.e, i |-> e.i, o |-> e.o, w |-> e.w, P |-> e.P, kind |-> e.kind, tol |-> e.tol]
     /\ m' = e.m /\ lag' = 0 /\ on' = e.on /\ free' = FALSE /\ acc' = Z3 /\ q' = Id
     /\ LET s == Where(el', e.m) IN Note(e, Up(s.p), Up(s.v)) /\ out' = [k |-> "first", p |-> s.p, v |-> s.v]
  \/ /\ Is(el)
     /\ \/ e.op = "power" /\ (acc = Z3 \/ Kep) /\ on' = e.on /\ UNCHANGED <<el, m, lag, free, acc, q, p, v, en, hv, ev>> /\ out' = Nothing
        \/ e.op = "acc" /\ (lag = 0 \/ Kep) /\ acc' = e.a /\ UNCHANGED <<el, m, lag, on, free, q, p, v, en, hv, ev>> /\ out' = Nothing
        \/ e.op = "add" /\ (lag = 0 \/ Kep) /\ acc' = Aw(e) /\ UNCHANGED <<el, m, lag, on, free, q, p, v, en, hv, ev>> /\ out' = Nothing
        \/ e.op = "att" /\ q' = e.q /\ UNCHANGED <<el, m, lag, on, free, acc, p, v, en, hv, ev>> /\ out' = [k |-> "body"]
        \/ /\ e.op = "go" /\ UNCHANGED <<el, on, acc, q>>
           /\ LET T == e.n * e.dt IN
              /\ m' = Adv(m, T)
              /\ IF ~on THEN lag' = lag + T /\ UNCHANGED <<free, p, v, en, hv, ev>> /\ out' = Stay
                 ELSE /\ lag' = 0
                      /\ free' = (free \/ (acc # Z3 /\ ~Kep))
                      /\ IF Kep \/ ~free'
                         THEN LET s == Where(el, m') IN Note(e, Up(s.p), Up(s.v)) /\ out' = [k |-> "kepler", p |-> s.p, v |-> s.v]
                         ELSE LET th == Th(T + lag) IN
                              IF th <= 2200 THEN LET s == Kick(p, v, acc, th) IN Note(e, s.p, s.v) /\ out' = [k |-> "kick", p |-> s.p, v |-> s.v]
                              ELSE Note(e, p, v) /\ out' = [k |-> "far"]
VN(a, b, tol) == \A i \in 1..3 : Near(a[i], b[i], tol)
In4(x) == [i \in 1..3 |-> RDiv(x[i], 100)]
Nums(x) == \A i \in 1..3 : Abs(x[i]) < 20000000
\* the frames go with position and velocity: Earth fixed (angle g, rotation rate of the Earth in 1e-4 n), local vertical, body
Frames(r, qq) ==
  LET x == In4(r.p) y == In4(r.v) we == (el'.P * 11606) \div 100000
      rel == <<y[1] + TDiv(we * x[2], 10000), y[2] - TDiv(we * x[1], 10000), y[3]>>
  IN /\ VN(r.pe, RotZ(-r.g, x), 4) /\ VN(r.ve, RotZ(-r.g, rel), 6)
     /\ VN(r.lp, <<ISqrt(N2(x)), 0, 0>>, 3)
     /\ Near(r.lv[3], 0, 3) /\ r.lv[2] > 0 /\ Near(N2(r.lv) \div 10000, N2(y) \div 10000, 30)
     /\ Near((r.lv[2] * r.lp[1]) \div 10000, ISqrt(N2(In4(r.h))), 12)
     /\ (qq # None => VN(r.vb, [i \in 1..3 |-> TDiv(App(Rot(qq), y)[i], N2(qq))], 6))
\* elements worked out from position and velocity (angles in milli-degrees)
Ang(a, b, tol) == LET d == Abs(a - b) % 360000 IN d <= tol \/ d >= 360000 - tol
Elements(L, M, o) ==
  /\ Near(o.a, 1000000, 5) /\ Near(o.e, 10000 * L.e, 5) /\ Near(o.i, 1000 * L.i, 30)
  /\ (L.i \notin {0, 180} => Ang(o.o, 1000 * L.o, 2))
  /\ IF L.i = 180 THEN L.e > 0 => Ang(o.w - o.o, 1000 * (L.w - L.o), 60)
     ELSE IF L.i = 0 THEN L.e > 0 => Ang(o.w + o.o, 1000 * (L.w + L.o), 60)
     ELSE L.e > 0 => Ang(o.w, 1000 * L.w, 10)
  /\ (L.e > 0 => Ang(o.m, M, 20))
  /\ (L.e = 0 /\ L.i \notin {0, 180} => Ang(o.w + o.m, 1000 * L.w + M, 20))
Consts(r) == Near(r.en, en, 4) /\ VN(r.h, hv, 4) /\ VN(r.ev, ev, 12)
Match(e, o) ==
  LET r == e.r IN
  CASE o.k = "none" -> TRUE
    [] o.k = "body" -> Frames(r, q') /\ r.p = p /\ r.v = v
    [] o.k = "still" -> r.p = p /\ r.v = v
    [] o.k \in {"first", "kepler"} ->
         /\ Nums(r.p) /\ Nums(r.v)
         /\ VN(In4(r.p), o.p, PTol(el')) /\ VN(In4(r.v), o.v, VTol(el'))
         /\ Near(r.en, -500000, 4) /\ VN(In4(r.h), Normal(el'), 5) /\ VN(In4(r.ev), Perigee(el'), 5)
         /\ Frames(r, None)
         /\ (o.k = "first" => Elements(el', m', r.oe))
         /\ (o.k = "kepler" => Consts(r))
    [] OTHER ->
         /\ Nums(r.p) /\ Nums(r.v)
         /\ (o.k = "kick" => VN(r.p, o.p, 12) /\ VN(r.v, o.v, 25))
         /\ IF acc = Z3 THEN Consts(r)
            ELSE LET u == IF o.k = "kick" THEN 100 ELSE 1000 d == [i \in 1..3 |-> RDiv(r.p[i] - p[i], u)] IN
                 Near(r.en - en, TDiv(Dot(acc, d), 1000000 \div u), 12 + ((Abs(acc[1]) + Abs(acc[2]) + Abs(acc[3])) \div 10000) * (u \div 100))
         /\ Frames(r, None)
=============================================================================
