------------------------------ MODULE Sensors ------------------------------
(* Attitude sensors, magnetorquer, telescope and GNSS antenna of one spacecraft: what each reports after every step of
   the component clock, given attitude, angular rate, and where the Sun, the Earth and the Moon are.
   Exact frames: quaternions are integer 4-vectors of integer norm, directions integer 3-vectors of integer norm, so that
   every direction cosine is a fraction; angles are compared through a table of cosines (units of 1e-5).
   Units: rates 1e-3 rad/s (measured 1e-5), field 10 nT, moments 1/4 Am2 (measured 1/100), power 1/100 W/m2.
   Anchors: components/base/sensor*.hpp, components/real/aocs/{gyro_sensor,magnetometer,magnetorquer,star_sensor,sun_sensor,
            gnss_receiver,mtq_magnetometer_interference}.*, components/real/mission/telescope.*, environment/global/hipparcos_catalogue.* *)
EXTENDS VTGeo, TLC
VARIABLES k, att, rate, body, pd, ds, itf, bb, out
vars == <<k, att, rate, body, pd, ds, itf, bb, out>>
Init == /\ k = -1 /\ att = Id /\ rate = Z3 /\ body = EmptyFn /\ pd = <<1, 0, 0>> /\ ds = <<>> /\ itf = <<>> /\ bb = Z3 /\ out = [ok |-> TRUE]
\* direction u (inertial) in the device's frame, times |att|^2 |q|^2
InC(q, u) == App(Rot(q), App(Rot(att), u))
Den(q, u) == N2(att) * N2(q) * Nrm(u)
\* is the direction u within deg of axis ax (1 to 3) of the device?
CosTo(q, u, ax) == (InC(q, u)[ax] * 100000) \div Den(q, u)
Within(q, u, ax, deg) == IF deg >= 180 THEN 2 ELSE Above(CosTo(q, u, ax), Cos(deg), 3)
\* --- devices
New(e) == LET c == [x \in DOMAIN e \ {"op", "r"} |-> e[x]] IN
  CASE e.k \in {"gyro", "mag"} -> [c |-> c, on |-> TRUE, raw |-> Z3, ran |-> FALSE]
    [] e.k = "mtq" -> [c |-> c, on |-> TRUE, cmd |-> Z3, m |-> Z3, b |-> Z3, t |-> Z3]
    [] e.k = "stt" -> [c |-> c, on |-> TRUE, buf |-> <<>>, n |-> 0, v |-> Id, err |-> 1]
    [] e.k = "sun" -> [c |-> c, on |-> TRUE, det |-> 0, v |-> Z3, den |-> 1, ill |-> 0, dn |-> 0]
    [] e.k = "tel" -> [c |-> c, on |-> TRUE, s |-> 1, e |-> 1, m |-> 1, img |-> <<>>, st |-> <<>>, ran |-> FALSE]
    [] e.k = "gnss" -> [c |-> c, on |-> TRUE, vis |-> 0, d |-> 0]
Delay(c) == Max2(c.delay4 \div 4, 1)
Every(c) == Max2(c.int4 \div 4, 1)
\* saturation: constant beyond the first range, zero beyond the second (a second range below the first is twice the first)
Rc(c) == Abs(c.rc)
Rz(c) == IF Rc(c) > Abs(c.rz) THEN 2 * Rc(c) ELSE Abs(c.rz)
Clip(v, rc, rz) == IF Abs(v) >= rz THEN 0 ELSE IF Abs(v) >= rc THEN (IF v > 0 THEN rc ELSE -rc) ELSE v
Lim(v, lo, hi) == IF v > hi THEN hi ELSE IF v < lo THEN lo ELSE v
ScaleOf(c) == IF c.nos THEN << <<4, 0, 0>>, <<0, 4, 0>>, <<0, 0, 4>> >> ELSE Mat(c.s)
RECURSIVE SumV(_)
SumV(s) == IF s = <<>> THEN Z3 ELSE LET x == SumV(Tail(s)) IN [i \in 1..3 |-> s[1][i] + x[i]]
Added(i) == SumV([n \in 1..Len(itf) |-> IF itf[n].i = i THEN itf[n].add ELSE Z3])
Linear(c, true, bias) == [i \in 1..3 |-> TDiv(Dot(ScaleOf(c)[i], true), 4) + bias[i]]
Gyro(s) == [s EXCEPT !.ran = TRUE, !.raw = Linear(s.c, [i \in 1..3 |-> TDiv(App(Rot(s.c.q), rate)[i] * 100, N2(s.c.q))], [i \in 1..3 |-> s.c.bias[i] * 100])]
Mag(s, i, B) == [s EXCEPT !.ran = TRUE, !.raw = Linear(s.c, [j \in 1..3 |-> TDiv(App(Rot(s.c.q), B)[j], N2(s.c.q))], [j \in 1..3 |-> s.c.bias[j] + Added(i)[j]])]
Mtq(s, B) == IF ~s.on THEN [s EXCEPT !.cmd = Z3, !.m = Z3, !.b = Z3, !.t = Z3]
             ELSE LET lim == [i \in 1..3 |-> Lim(s.cmd[i] * 25, s.c.lo[i] * 100, s.c.hi[i] * 100) + s.c.bias[i] * 25]
                      m == [i \in 1..3 |-> TDiv(Dot(Mat(s.c.s)[i], lim), 4)]
                      b == [i \in 1..3 |-> TDiv(App(Trp(Rot(s.c.q)), m)[i], N2(s.c.q))]
                  IN [s EXCEPT !.m = m, !.b = b, !.t = [i \in 1..3 |-> TDiv(Crs(b, B)[i], 100)]]
Stt(s) == LET smp == QMul(att, s.c.q)
              b2 == IF Len(s.buf) > Delay(s.c) THEN Append(Tail(s.buf), smp) ELSE Append(s.buf, smp)
              old == IF Len(b2) > Delay(s.c) THEN b2[1] ELSE Id
              rl == Above(N2(rate) * 1000, s.c.rl * s.c.rl * 304617, 30 * s.c.rl * s.c.rl)
              bad == Or3(Or3(Within(s.c.q, body.SUN.u, 1, s.c.sa), Within(s.c.q, body.MOON.u, 1, s.c.ma)), Or3(Within(s.c.q, body.EARTH.u, 1, s.c.ea + body.EARTH.d), rl))
          IN [s EXCEPT !.buf = b2, !.n = (@ + 1) % Every(s.c), !.v = IF s.n = 0 THEN old ELSE @, !.err = bad]
Ill(q, dens) == LET c == CosTo(q, body.SUN.u, 3) IN IF c <= 0 THEN 0 ELSE ((dens \div 10) * (c \div 10)) \div 1000
SunS(s, dens) == LET bright == Above(s.ill, s.c.pct * 1366, 8 + s.c.pct) IN
                 [s EXCEPT !.det = And3(IF s.c.pct = 0 THEN 1 ELSE bright, Within(s.c.q, body.SUN.u, 3, s.c.fov)), !.v = InC(s.c.q, body.SUN.u), !.den = Den(s.c.q, body.SUN.u), !.ill = Ill(s.c.q, dens), !.dn = dens]
\* image: in view when the direction is within the field of view about both axes; pixel position (1/100) linear in the tangent
View1(num, x, f) == Above(x * Sin(f), Abs(num) * Cos(f), (x + Abs(num)) \div 2 + 2)
Pix(num, x, f, n) == LET a == TDiv(num * 10000, x) b == TDiv(a * Cos(f), Sin(f)) IN TDiv(n * 50 * b, 10000) + n * 50
Img(c, u) == LET p == InC(c.q, u) in == IF p[1] <= 0 THEN 0 ELSE And3(View1(p[3], p[1], c.fx), View1(p[2], p[1], c.fy))
             IN [in |-> in, x |-> IF in = 0 THEN -100 ELSE Pix(p[3], p[1], c.fx, c.nx), y |-> IF in = 0 THEN -100 ELSE Pix(p[2], p[1], c.fy, c.ny)]
\* the catalogue is in order of brightness, and read up to the limiting magnitude
RECURSIVE Read(_, _)
Read(cat, mm) == IF cat = <<>> THEN <<>> ELSE IF cat[1][2] > mm THEN <<>> ELSE <<cat[1]>> \o Read(Tail(cat), mm)
Star(c, s) == [id |-> s[1], mag |-> s[2] * 10, p |-> Img(c, <<s[3], s[4], s[5]>>)]
Stars(c) == LET r == Read(c.cat, c.mm) all == [i \in 1..Len(r) |-> Star(c, r[i])]
                seen == SelectSeq(all, LAMBDA x : x.p.in # 0)
            IN [sure |-> \A i \in 1..Len(all) : all[i].p.in # 2, l |-> IF Len(seen) > c.stars THEN SubSeq(seen, 1, c.stars) ELSE seen]
Tel(s) == [s EXCEPT !.ran = TRUE, !.s = Within(s.c.q, body.SUN.u, 1, s.c.sa), !.e = Within(s.c.q, body.EARTH.u, 1, s.c.ea), !.m = Within(s.c.q, body.MOON.u, 1, s.c.ma),
                    !.img = <<Img(s.c, body.SUN.u), Img(s.c, body.EARTH.u), Img(s.c, body.MOON.u)>>, !.st = <<Stars(s.c)>>]
\* antenna (third axis) on the side away from the Earth; d: distance of the reported position from the Earth's centre (-1 not known)
Gnss(s, e, i) == LET v == Above(InC(s.c.q, pd)[3], 0, 0) IN [s EXCEPT !.vis = v, !.d = IF v = 2 THEN -1 ELSE IF v = 0 THEN @ ELSE IF "r" \in DOMAIN e /\ Len(e.r.d) >= i THEN e.r.d[i].d ELSE 70000 + k]
Step(e, i, s, B, dens) ==
  IF k % Max2(s.c.pre, 1) # 0 THEN s
  ELSE IF ~s.on THEN (IF s.c.k = "mtq" THEN Mtq(s, B) ELSE s)
  ELSE CASE s.c.k = "gyro" -> Gyro(s) [] s.c.k = "mag" -> Mag(s, i, B) [] s.c.k = "mtq" -> Mtq(s, B) [] s.c.k = "stt" -> Stt(s)
         [] s.c.k = "sun" -> SunS(s, dens) [] s.c.k = "tel" -> Tel(s) [] s.c.k = "gnss" -> Gnss(s, e, i)
\* --- what is seen
Seen(i, s) ==
  CASE s.c.k = "gyro" -> [k |-> "gyro", ran |-> s.ran, raw |-> s.raw, rc |-> Rc(s.c) * 100, rz |-> Rz(s.c) * 100, tol |-> 4]
    [] s.c.k = "mag" -> [k |-> "mag", ran |-> s.ran, raw |-> s.raw, rc |-> Rc(s.c), rz |-> Rz(s.c), tol |-> 6]
    [] s.c.k = "mtq" -> [k |-> "mtq", m |-> s.m, b |-> s.b, t |-> s.t]
    [] s.c.k = "stt" -> [k |-> "stt", v |-> s.v, err |-> s.err]
    [] s.c.k = "sun" -> [k |-> "sun", det |-> s.det, v |-> s.v, den |-> s.den, ill |-> s.ill, dn |-> s.dn]
    [] s.c.k = "tel" -> [k |-> "tel", ran |-> s.ran, s |-> s.s, e |-> s.e, m |-> s.m, img |-> s.img, st |-> s.st, n |-> s.c.stars, tol |-> 8 + Max2(s.c.nx, s.c.ny) \div 10]
    [] s.c.k = "gnss" -> [k |-> "gnss", vis |-> s.vis, d |-> s.d]
SeeT(t) == out' = [d |-> [i \in 1..Len(ds') |-> Seen(i, ds'[i])], bb |-> bb', tick |-> t]
See == SeeT(FALSE)
Tick(e) == LET obs == "r" \in DOMAIN e /\ "bb" \in DOMAIN e.r
               B == IF obs THEN e.r.bb ELSE bb
               dens == IF obs THEN e.r.dens ELSE TDiv(136600 * 4, body.SUN.d * body.SUN.d) IN
           /\ k' = k + 1 /\ bb' = B
           /\ ds' = [i \in 1..Len(ds) |-> Step(e, i, ds[i], B, dens)]
           /\ UNCHANGED <<att, rate, body, pd, itf>> /\ SeeT(TRUE)
\* the torquers' field at the magnetometer: the coefficient matrix of degree d times the d-th powers of the moments
Pow(m, d) == CASE d = 1 -> m * 100 [] d = 2 -> m * m [] d = 3 -> TDiv(m * m, 100) * m      \* 1e-4 Am2^d
Fld(C, d, m) == LET p == [i \in 1..3 |-> TDiv(Pow(m[i], d), 100)] IN [i \in 1..3 |-> TDiv(Dot(Mat(C)[i], p), 1000)]
Inter(x) == [x EXCEPT !.add = SumV([d \in 1..Len(x.c) |-> Fld(x.c[d], d, ds[x.j].m)])]
SetD(i, s) == ds' = [ds EXCEPT ![i] = s] /\ UNCHANGED <<k, att, rate, body, pd, itf, bb>> /\ See
Do(e) ==
  \/ /\ e.op = "reset" /\ k' = 0 /\ att' = Id /\ rate' = Z3 /\ pd' = e.pos /\ ds' = <<>> /\ itf' = <<>> /\ bb' = <<2000, -1000, 3000>>
     /\ body' = [SUN |-> [u |-> <<0, 0, 1>>, d |-> 2], MOON |-> [u |-> <<0, 1, 0>>, d |-> 4], EARTH |-> [u |-> <<-e.pos[1], -e.pos[2], -e.pos[3]>>, d |-> 0]]
     /\ See
  \/ /\ k >= 0
     /\ \/ e.op = "att" /\ att' = e.q /\ UNCHANGED <<k, rate, body, pd, ds, itf, bb>> /\ See
        \/ e.op = "rate" /\ rate' = e.w /\ UNCHANGED <<k, att, body, pd, ds, itf, bb>> /\ See
        \/ e.op = "body" /\ body' = [body EXCEPT ![e.b] = [u |-> e.u, d |-> e.d]] /\ UNCHANGED <<k, att, rate, pd, ds, itf, bb>> /\ See
        \/ e.op = "add" /\ ds' = Append(ds, New(e)) /\ UNCHANGED <<k, att, rate, body, pd, itf, bb>> /\ See
        \/ e.op = "cmd" /\ e.i <= Len(ds) /\ ds[e.i].c.k = "mtq" /\ SetD(e.i, [ds[e.i] EXCEPT !.cmd = e.m])
        \/ e.op = "pow" /\ e.i <= Len(ds) /\ ds[e.i].c.pp /\ SetD(e.i, [ds[e.i] EXCEPT !.on = e.on])
        \/ e.op = "itf" /\ itf' = Append(itf, [i |-> e.i, j |-> e.j, c |-> e.c, add |-> Z3]) /\ UNCHANGED <<k, att, rate, body, pd, ds, bb>> /\ See
        \/ e.op = "inter" /\ itf' = [n \in 1..Len(itf) |-> Inter(itf[n])] /\ UNCHANGED <<k, att, rate, body, pd, ds, bb>> /\ See
        \/ e.op = "tick" /\ Tick(e)
\* --- comparison
OkV(v) == \A i \in DOMAIN v : OkNum(v[i])
NearV(a, b, tol) == \A i \in 1..3 : OkNum(a[i]) /\ Near(a[i], b[i], tol)
MSens(r, o) == \A i \in 1..3 : OkNum(r.v[i]) /\ IF ~o.ran THEN r.v[i] = 0 ELSE \E d \in {-1, 0, 1} : Near(r.v[i], Clip(o.raw[i] + d * o.tol, o.rc, o.rz), 2 * o.tol)
MMtq(r, o, B) == /\ NearV(r.c, o.m, 2) /\ NearV(r.b, o.b, 4)
                 /\ NearV(r.t, o.t, 5 + (Abs(B[1]) + Abs(B[2]) + Abs(B[3]) + Abs(o.b[1]) + Abs(o.b[2]) + Abs(o.b[3])) \div 20)
MStt(r, o) == LET n == Nrm(o.v) IN /\ OkV(r.v) /\ Is3(o.err, r.err)
                                   /\ \E sg \in {1, -1} : \A i \in 1..4 : Near(r.v[i], TDiv(sg * o.v[i] * 10000, n), 3)
MSun(r, o) == /\ Is3(o.det, r.det) /\ OkNum(r.ill) /\ Near(r.ill, o.ill, 10 + o.dn \div 8000)
              /\ \A i \in 1..3 : OkNum(r.v[i]) /\ IF r.det THEN Near(r.v[i], TDiv(o.v[i] * 10000, o.den), 4) ELSE r.v[i] = 0
MPix(r, o, tol) == OkV(r) /\ IF o.in = 2 THEN TRUE ELSE Near(r[1], o.x, IF o.in = 0 THEN 0 ELSE tol) /\ Near(r[2], o.y, IF o.in = 0 THEN 0 ELSE tol)
MTel(r, o) == /\ Is3(o.s, r.s) /\ Is3(o.e, r.e) /\ Is3(o.m, r.m)
              /\ (o.ran => /\ \A i \in 1..3 : MPix(r.img[i], o.img[i], o.tol)
                           /\ Len(r.stars) = o.n
                           /\ (o.st[1].sure => \A i \in 1..o.n : IF i > Len(o.st[1].l) THEN r.stars[i] = <<-1, -100, -100, -100>>
                                                                 ELSE r.stars[i][1] = o.st[1].l[i].id /\ Near(r.stars[i][2], o.st[1].l[i].mag, 1) /\ MPix(<<r.stars[i][3], r.stars[i][4]>>, o.st[1].l[i].p, o.tol)))
\* the position follows the truth while the antenna sees the sky, and is held otherwise
MGnss(r, o, i, e) == /\ OkNum(r.d) /\ OkNum(r.err) /\ Is3(o.vis, r.vis)
                     /\ (e.op = "tick" /\ (k % Max2(ds[i].c.pre, 1)) = 0 /\ ds[i].on => (r.vis => r.err <= 1))
                     /\ (o.d # -1 => r.d = o.d) /\ (o.d > 0 => r.d > 60000)
Match(e, o) ==
  LET r == e.r IN
  /\ Len(r.d) = Len(o.d)
  /\ (o.tick => OkV(r.bb) /\ OkV(r.bi) /\ NearV(r.bb, [i \in 1..3 |-> TDiv(App(Rot(att), r.bi)[i], N2(att))], 3))
  /\ \A i \in 1..Len(o.d) : CASE o.d[i].k \in {"gyro", "mag"} -> MSens(r.d[i], o.d[i]) [] o.d[i].k = "mtq" -> MMtq(r.d[i], o.d[i], o.bb) [] o.d[i].k = "stt" -> MStt(r.d[i], o.d[i])
                              [] o.d[i].k = "sun" -> MSun(r.d[i], o.d[i]) [] o.d[i].k = "tel" -> MTel(r.d[i], o.d[i]) [] o.d[i].k = "gnss" -> MGnss(r.d[i], o.d[i], i, e)
=============================================================================
