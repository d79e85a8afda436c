------------------------------- MODULE Disturb -------------------------------
(* What acts on a spacecraft from outside: sunlight and air on its faces, the gradient of gravity on its inertia, the
   magnetic field on its residual moment, the other bodies on its orbit.
   Areas in 1e-2 m2, lengths in the body in 1e-2 m, directions in 1e-4, properties of the faces in percent.
   Anchors: disturbances/{surface_force,solar_radiation_pressure_disturbance,air_drag,gravity_gradient,
            magnetic_disturbance,third_body_gravity}.cpp, structure/{surface,initialize_structure}                     *)
EXTENDS VTGeo
VARIABLES sc,    \* the spacecraft and the settings of the disturbances
          out
vars == <<sc, out>>
None == [none |-> TRUE]
Is(x) == "none" \notin DOMAIN x
Init == sc = None /\ out = [k |-> "none"]
M4(a, b) == LET x == Abs(a) y == Abs(b) z == ((x \div 100) * y + ((x % 100) * y) \div 100 + 50) \div 100 IN IF (a < 0) # (b < 0) THEN -z ELSE z     \* a * b / 1e4
Max3(v) == Max2(Max2(Abs(v[1]), Abs(v[2])), Abs(v[3]))
\* a vector brought to a length that fits, and its unit vector
Fit(v) == LET m == Max3(v) IN IF m > 20000 THEN LET d == (m \div 20000) + 1 IN [i \in 1..3 |-> TDiv(v[i], d)] ELSE [i \in 1..3 |-> v[i] * (20000 \div m)]
Unit(v) == LET t == Fit(v) l == ISqrt(N2(t)) IN [i \in 1..3 |-> RDiv(t[i] * 10000, l)]
\* 1 / length^2: 1e-14 for lengths in tens
Inv2(v) == LET k == 20000 \div Max3(v) x == RDiv(100000000, ISqrt(N2(Fit(v)))) * k IN ((x \div 10) * (x \div 10)) \div 100
Body(q, u) == [i \in 1..3 |-> RDiv(Dot(Rot(q)[i], u), N2(q))]
Plus(a, b) == [i \in 1..3 |-> a[i] + b[i]]
N4(f) == [i \in 1..3 |-> RDiv(f.n[i] * 10000, Nrm(f.n))]
CosTo(f, u) == RDiv(Dot(f.n, u), Nrm(f.n))
\* --- sunlight on a face: per area and pressure, 1e-4
Light(f, u) ==
  LET c == CosTo(f, u) n == N4(f) mirror == f.rf * f.sp diffuse == (f.rf * (100 - f.sp) * 2) \div 3
      a == M4(M4(10000 + mirror, c), c) + M4(diffuse, c)
  IN IF c <= 0 THEN Z3 ELSE [i \in 1..3 |-> -M4(n[i], a) + M4(M4(10000 - mirror, c), M4(c, n[i]) - u[i])]
\* --- air on a face (much faster than the molecules are): per area and dynamic pressure; w: molecular speed over speed, t: root of the temperatures' ratio
Breeze(f, u, w, t) ==
  LET c == CosTo(f, u) n == N4(f) dif == 100 * (100 - f.as) 
      a == 2 * M4(20000 - dif, M4(c, c) + M4(w, w) \div 2) + M4(M4(M4(dif, 17725), M4(c, w)), t)
  IN IF c <= 0 THEN Z3 ELSE [i \in 1..3 |-> -M4(n[i], a) + 2 * M4(M4(dif, c), M4(c, n[i]) - u[i])]
Slow(f, u, w) == CosTo(f, u) \in -6..(3 * w)              \* too grazing to tell exactly
\* --- all faces: forces and torques (about the centre of gravity), G: the forces per area
RECURSIVE Forces(_, _)
Forces(fs, G) == IF fs = <<>> THEN [f |-> Z3, t |-> Z3, a |-> 0, ra |-> 0] ELSE
  LET x == fs[1] rest == Forces(Tail(fs), Tail(G)) p == [i \in 1..3 |-> TDiv(x.a * G[1][i], 100)] r == [i \in 1..3 |-> x.p[i] - sc.cog[i]] 
      t == [i \in 1..3 |-> TDiv(Crs(r, p)[i], 100)]
      m == Abs(r[1]) + Abs(r[2]) + Abs(r[3])
  IN [f |-> Plus(rest.f, p), t |-> Plus(rest.t, t), a |-> rest.a + x.a, ra |-> rest.ra + (x.a * m) \div 100]
RECURSIVE Grazing(_, _, _)
Grazing(fs, u, w) == IF fs = <<>> THEN 0 ELSE (IF Slow(fs[1], u, w) THEN 1 ELSE 0) + Grazing(Tail(fs), u, w)
VN(a, b, tol) == \A i \in 1..3 : Near(a[i], b[i], tol)
Good(v) == \A i \in 1..3 : Abs(v[i]) < 2000000000
On(n) == \E i \in 1..Len(sc.on) : sc.on[i] = n
Off(o) == o.z
Srp(o, u, sh) ==
  LET x == Forces(sc.faces, [i \in 1..Len(sc.faces) |-> Light(sc.faces[i], u)]) tf == 3 + (x.a * 12) \div 100 tt == 4 + (x.ra * 12) \div 100 + 2 * Len(sc.faces) IN
  o.a = Z3 /\ VN(o.f, [i \in 1..3 |-> M4(x.f[i], sh)], tf) /\ VN(o.t, [i \in 1..3 |-> M4(x.t[i], sh)], tt)
Wind(p, v) == <<v[1] + TDiv(729 * p[2], 10000), v[2] - TDiv(729 * p[1], 10000), v[3]>>      \* relative to the air, that turns with the Earth
Drag(o, p, v, q) ==
  LET x == Wind(p, v) u == Body(q, Unit(x)) v2 == N2(x) \div 10000 len == ISqrt(N2(x))
      w == ((ISqrt((1662900 * sc.tw) \div sc.mw)) * 1000) \div len
      t == 10 * ISqrt((sc.tw * 1000000) \div sc.tm)
      y == Forces(sc.faces, [i \in 1..Len(sc.faces) |-> Breeze(sc.faces[i], u, w, t)]) gr == Grazing(sc.faces, u, w)
      tf == 3 + M4((y.a * (24 + gr * w)) \div 100, v2) tt == 4 + M4((y.ra * (24 + gr * w)) \div 100 + 4 * Len(sc.faces), v2)
  IN o.a = Z3 /\ VN(o.f, [i \in 1..3 |-> M4(y.f[i], v2)], tf) /\ VN(o.t, [i \in 1..3 |-> M4(y.t[i], v2)], tt)
\* --- the gradient of gravity
Inertia == << <<sc.in[1], sc.in[4], sc.in[5]>>, <<sc.in[4], sc.in[2], sc.in[6]>>, <<sc.in[5], sc.in[6], sc.in[3]>> >>
Tide(o, p, q) ==
  LET u == Body(q, Unit(p)) k == 100000000 \div ISqrt(N2(p)) k3 == M4(k, M4(k, k))
      h == [i \in 1..3 |-> TDiv(Dot(Inertia[i], u), 10)] t == [i \in 1..3 |-> TDiv(Crs(u, h)[i], 1000)]
      big == Max2(Max3(Inertia[1]), Max2(Max3(Inertia[2]), Max3(Inertia[3])))
  IN o.f = Z3 /\ o.a = Z3 /\ VN(o.t, [i \in 1..3 |-> M4(t[i], k3)], 3 + M4(8 * big, k3))
\* --- the residual magnetic moment; nz: noise (white, walk, limit of the walk)
Moment(o, b, m, nz) ==
  LET dev == 7 * nz[1] + nz[2] + nz[3] x == IF nz = Z3 THEN m ELSE o.m
      tol == Abs(x[1]) + Abs(x[2]) + Abs(x[3]) + (IF nz = Z3 THEN 0 ELSE 2 * Max3(b)) + 2
  IN o.f = Z3 /\ o.a = Z3 /\ VN(o.m, m, 1 + dev) /\ VN(o.t, Crs(x, b), tol) /\ (nz[1] > 100 => ~VN(o.m, m, 1))
\* --- other bodies: pull on the spacecraft less that on the centre (in 1e6 km3/s2 and tens of km)
Pull(g, s, p) == LET d == [i \in 1..3 |-> s[i] - TDiv(p[i], 10)] a == Inv2(d) b == Inv2(s) IN [v |-> [i \in 1..3 |-> g * (M4(Unit(d)[i], a) - M4(Unit(s)[i], b))], m |-> g * Max2(a, b)]
Others(o, e) ==
  LET has(n) == \E i \in 1..Len(sc.third) : sc.third[i] = n
      zero == [v |-> Z3, m |-> 0]
      x == IF has("SUN") THEN Pull(2, e.sun, e.p) ELSE zero y == IF has("MOON") THEN Pull(1, e.moon, e.p) ELSE zero
  IN o.f = Z3 /\ o.t = Z3 /\ VN(o.a, Plus(x.v, y.v), 3 + (x.m + y.m) \div 300)
Acts(e, r) ==
  LET u == Body(e.q, Unit(e.sun)) far == e.k > 1000 IN
  /\ r.ok /\ Max3(r.b) \in 8000..70000 /\ \A n \in DOMAIN r.d : r.d[n].l /\ Good(r.d[n].f) /\ Good(r.d[n].t) /\ Good(r.d[n].a)
  /\ IF On("SOLAR_RADIATION_PRESSURE_DISTURBANCE") THEN far => Srp(r.d.srp, u, r.sh) ELSE Off(r.d.srp)
  /\ IF On("AIR_DRAG") THEN Drag(r.d.drag, e.p, e.v, e.q) ELSE Off(r.d.drag)
  /\ IF On("GRAVITY_GRADIENT") THEN Tide(r.d.gg, e.p, e.q) ELSE Off(r.d.gg)
  /\ IF On("MAGNETIC_DISTURBANCE") THEN Moment(r.d.mag, r.b, sc.m, Z3) /\ Moment(r.d.magn, r.b, sc.m, sc.noise) ELSE Off(r.d.mag) /\ Off(r.d.magn)
  /\ IF On("THIRD_BODY_GRAVITY") THEN far \/ Others(r.d.third, e) ELSE Off(r.d.third)
\* --- steps
Do(e) ==
  \/ /\ e.op = "reset" /\ out' = [k |-> "reset"]
     /\ sc' = [on |-> e.on, faces |-> e.faces, cog |-> e.cog, in |-> e.in, m |-> e.m, noise |-> e.noise, tw |-> e.tw, tm |-> e.tm, mw |-> e.mw, third |-> e.third]
  \/ /\ Is(sc)
     /\ \/ /\ e.op = "set" /\ out' = [k |-> "none"]
           /\ sc' = [sc EXCEPT !.cog = IF "cog" \in DOMAIN e THEN e.cog ELSE sc.cog, !.in = IF "in" \in DOMAIN e THEN e.in ELSE sc.in,
                               !.faces = IF "area" \in DOMAIN e /\ sc.faces # <<>> THEN [sc.faces EXCEPT ![1].a = e.area] ELSE sc.faces]
        \/ e.op = "at" /\ UNCHANGED sc /\ out' = [k |-> "at"]
Match(e, o) ==
  CASE o.k = "none" -> TRUE
    [] o.k = "reset" -> e.r.dep = <<TRUE, TRUE, TRUE, TRUE, TRUE, FALSE>>       \* by name: drag, gg, mag, magn, srp, third
    [] OTHER -> Acts(e, e.r)
=============================================================================
