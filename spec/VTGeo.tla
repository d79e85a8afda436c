------------------------------- MODULE VTGeo -------------------------------
(* Exact geometry with integers: quaternions are integer 4-vectors and directions integer 3-vectors of integer norm, so
   that every direction cosine is a fraction; angles in degrees through a table of cosines (units of 1e-5).            *)
EXTENDS VTLib
CosTab == <<100000, 99985, 99939, 99863, 99756, 99619, 99452, 99255, 99027, 98769, 98481, 98163, 97815, 97437, 97030, 96593, 96126, 95630, 95106, 94552, 93969, 93358, 92718, 92050, 91355, 90631, 89879, 89101, 88295, 87462, 86603, 85717, 84805, 83867, 82904, 81915, 80902, 79864, 78801, 77715, 76604, 75471, 74314, 73135, 71934, 70711, 69466, 68200, 66913, 65606, 64279, 62932, 61566, 60182, 58779, 57358, 55919, 54464, 52992, 51504, 50000, 48481, 46947, 45399, 43837, 42262, 40674, 39073, 37461, 35837, 34202, 32557, 30902, 29237, 27564, 25882, 24192, 22495, 20791, 19081, 17365, 15643, 13917, 12187, 10453, 8716, 6976, 5234, 3490, 1745, 0, -1745, -3490, -5234, -6976, -8716, -10453, -12187, -13917, -15643, -17365, -19081, -20791, -22495, -24192, -25882, -27564, -29237, -30902, -32557, -34202, -35837, -37461, -39073, -40674, -42262, -43837, -45399, -46947, -48481, -50000, -51504, -52992, -54464, -55919, -57358, -58779, -60182, -61566, -62932, -64279, -65606, -66913, -68200, -69466, -70711, -71934, -73135, -74314, -75471, -76604, -77715, -78801, -79864, -80902, -81915, -82904, -83867, -84805, -85717, -86603, -87462, -88295, -89101, -89879, -90631, -91355, -92050, -92718, -93358, -93969, -94552, -95106, -95630, -96126, -96593, -97030, -97437, -97815, -98163, -98481, -98769, -99027, -99255, -99452, -99619, -99756, -99863, -99939, -99985, -100000>>
Cos(d) == CosTab[Min2(d, 180) + 1]
Sin(d) == Cos(Abs(90 - d))                             \* for 0..90
\* milli-degrees, any sign; units of 1e-5
CosM(a) == LET b == Abs(a) % 360000 c == IF b > 180000 THEN 360000 - b ELSE b d == c \div 1000 f == c % 1000 IN
           IF f = 0 THEN CosTab[d + 1] ELSE (CosTab[d + 1] * (1000 - f) + CosTab[d + 2] * f) \div 1000
SinM(a) == CosM(a - 90000)
\* the same, exact to 1e-5: cos(d + f) with f in 1e-5 rad
CosF(a) == LET b == Abs(a) % 360000 c == IF b > 180000 THEN 360000 - b ELSE b d == c \div 1000 f == ((c % 1000) * 1745329) \div 1000000 IN
           CosTab[d + 1] - (CosTab[d + 1] * ((f * f) \div 200000)) \div 100000 - (CosTab[Abs(90 - d) + 1] * f) \div 100000
SinF(a) == CosF(a - 90000)
\* division to the nearest
RDiv(a, d) == (a + d \div 2) \div d
\* coordinates of a vector turned by an angle about z, about x (angles in milli-degrees; components up to 50000)
RotZ(t, v) == LET c == RDiv(CosF(t), 4) s == RDiv(SinF(t), 4) IN <<RDiv(v[1] * c - v[2] * s, 25000), RDiv(v[1] * s + v[2] * c, 25000), v[3]>>
RotX(t, v) == LET c == RDiv(CosF(t), 4) s == RDiv(SinF(t), 4) IN <<v[1], RDiv(v[2] * c - v[3] * s, 25000), RDiv(v[2] * s + v[3] * c, 25000)>>
C4(a) == (CosM(a) + 5) \div 10
S4(a) == (SinM(a) + 5) \div 10
RECURSIVE Bisect(_, _, _)
Bisect(n, lo, hi) == IF hi - lo <= 1 THEN lo ELSE LET m == (lo + hi) \div 2 IN IF m * m <= n THEN Bisect(n, m, hi) ELSE Bisect(n, lo, m)
ISqrt(n) == Bisect(n, 0, 46341)
Z3 == <<0, 0, 0>>
Id == <<0, 0, 0, 1>>
\* --- vectors and frames
Dot(a, b) == a[1] * b[1] + a[2] * b[2] + a[3] * b[3]
Crs(a, b) == <<a[2] * b[3] - a[3] * b[2], a[3] * b[1] - a[1] * b[3], a[1] * b[2] - a[2] * b[1]>>
N2(v) == IF Len(v) = 4 THEN v[1] * v[1] + v[2] * v[2] + v[3] * v[3] + v[4] * v[4] ELSE Dot(v, v)
Root(n) == CHOOSE x \in 0..150 : x * x <= n /\ (x + 1) * (x + 1) > n
Nrm(v) == Root(N2(v))
\* rows of the matrix that turns coordinates by quaternion q, times |q|^2
Rot(q) == LET x == q[1] y == q[2] z == q[3] w == q[4] IN
  << <<w*w + x*x - y*y - z*z, 2*(x*y + w*z), 2*(x*z - w*y)>>,
     <<2*(x*y - w*z), w*w - x*x + y*y - z*z, 2*(y*z + w*x)>>,
     <<2*(x*z + w*y), 2*(y*z - w*x), w*w - x*x - y*y + z*z>> >>
App(m, v) == <<Dot(m[1], v), Dot(m[2], v), Dot(m[3], v)>>
Trp(m) == << <<m[1][1], m[2][1], m[3][1]>>, <<m[1][2], m[2][2], m[3][2]>>, <<m[1][3], m[2][3], m[3][3]>> >>
QMul(l, r) == << l[4]*r[1] - l[3]*r[2] + l[2]*r[3] + l[1]*r[4], l[3]*r[1] + l[4]*r[2] - l[1]*r[3] + l[2]*r[4],
                 -l[2]*r[1] + l[1]*r[2] + l[4]*r[3] + l[3]*r[4], -l[1]*r[1] - l[2]*r[2] - l[3]*r[3] + l[4]*r[4] >>
\* coordinates after turning the frame by phi (milli-degrees) about a unit axis given in 1e-4
Turn(u, phi, v) == LET c == C4(phi) s == S4(phi) d == Dot(u, v) \div 10000 x == Crs(u, v) IN
                   [i \in 1..3 |-> (v[i] * c - (x[i] \div 10000) * s + ((u[i] * d) \div 10000) * (10000 - c)) \div 10000]
Mat(s) == << SubSeq(s, 1, 3), SubSeq(s, 4, 6), SubSeq(s, 7, 9) >>
Vec(F(_)) == <<F(1), F(2), F(3)>>
\* three-valued answers: 0 no, 1 yes, 2 too close to the edge to say
Above(a, b, tol) == IF a > b + tol THEN 1 ELSE IF a < b - tol THEN 0 ELSE 2
And3(a, b) == IF a = 0 \/ b = 0 THEN 0 ELSE IF a = 1 /\ b = 1 THEN 1 ELSE 2
Or3(a, b) == IF a = 1 \/ b = 1 THEN 1 ELSE IF a = 0 /\ b = 0 THEN 0 ELSE 2
Not3(a) == IF a = 2 THEN 2 ELSE 1 - a
Is3(a, b) == a = 2 \/ b = (a = 1)
\* with c the cosine part and s2 the squared sine part of an angle (same units): is the angle at least e degrees?
\* e: 30, 45, 60, 90, 120, 135, 150, 180 and more
CotN(e) == CASE e = 30 -> 3 [] e = 60 -> 1 [] OTHER -> 1
CotD(e) == CASE e = 60 -> 3 [] OTHER -> 1
AngGE(c, s2, e) ==
  IF e > 180 THEN 0 ELSE IF e = 180 THEN (IF s2 = 0 /\ c < 0 THEN 2 ELSE 0)
  ELSE IF e = 90 THEN (IF c < 0 THEN 1 ELSE IF c = 0 THEN 2 ELSE 0)
  ELSE IF e < 90 THEN (IF c <= 0 THEN 1 ELSE LET l == c * c * CotD(e) g == CotN(e) * s2 IN IF l < g THEN 1 ELSE IF l > g THEN 0 ELSE 2)
  ELSE IF c >= 0 THEN 0 ELSE LET l == c * c * CotD(180 - e) g == CotN(180 - e) * s2 IN IF l > g THEN 1 ELSE IF l < g THEN 0 ELSE 2
=============================================================================
