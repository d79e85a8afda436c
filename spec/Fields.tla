------------------------------- MODULE Fields -------------------------------
(* The fields around the Earth and the Moon: gravity beyond the centre's, from normalised coefficients; the geomagnetic
   field from its coefficients and the date; the density of the air after three models.
   Positions in 1/1000 of the reference radius (km for the air), coefficients in 1e-3, accelerations in 1e-4 of GM/R2,
   magnetic field in nT, logarithms in 1e-4.
   Anchors: disturbances/{geopotential,lunar_gravity_field}.cpp, math_physics/gravity/gravity_potential.cpp,
            environment/local/{geomagnetic_field,atmosphere}.cpp, math_physics/geomagnetic/igrf.cpp,
            math_physics/atmosphere/*                                                                               *)
EXTENDS VTGeo, TLC
VARIABLES set,   \* what is set up: kind of field and its settings
          sun,   \* where the Sun is (air)
          out
vars == <<set, sun, out>>
None == [none |-> TRUE]
Is(x) == "none" \notin DOMAIN x
Init == set = None /\ sun = <<149000000, 0, 0>> /\ out = [k |-> "none"]
\* --- solid harmonics: Poly[n][m+1] holds the coefficients (1e-4) of the m-th derivative of the Legendre polynomial of
\* degree n, times sqrt(2 (n-m)! / (n+m)!) for m > 0
Poly == <<<<<<0, 10000>>, <<10000>>>>,
          <<<<-5000, 0, 15000>>, <<0, 17321>>, <<8660>>>>,
          <<<<0, -15000, 0, 25000>>, <<-6124, 0, 30619>>, <<0, 19365>>, <<7906>>>>,
          <<<<3750, 0, -37500, 0, 43750>>, <<0, -23717, 0, 55340>>, <<-5590, 0, 39131>>, <<0, 20917>>, <<7395>>>>,
          <<<<0, 18750, 0, -87500, 0, 78750>>, <<4841, 0, -67777, 0, 101666>>, <<0, -25617, 0, 76852>>, <<-5229, 0, 47062>>, <<0, 22185>>, <<7016>>>>,
          <<<<-3125, 0, 65625, 0, -196875, 0, 144375>>, <<0, 28641, 0, -171847, 0, 189031>>, <<4529, 0, -81514, 0, 149442>>, <<0, -27171, 0, 99628>>, <<-4961, 0, 54569>>, <<0, 23268>>, <<6717>>>>>>
M4(a, b) == LET x == Abs(a) y == Abs(b) z == ((x \div 100) * y + ((x % 100) * y) \div 100 + 50) \div 100 IN IF (a < 0) # (b < 0) THEN -z ELSE z     \* a * b / 1e4
RECURSIVE Horner(_, _, _)
Horner(c, z, i) == IF i > Len(c) THEN 0 ELSE TLCEval(c[i] + M4(Horner(c, z, i + 1), z))
Diff(c) == [i \in 1..(Len(c) - 1) |-> i * c[i + 1]]
\* real and imaginary part of (x + i y)^m
RECURSIVE Cis(_, _)
Cis(u, m) == IF m = 0 THEN <<10000, 0>> ELSE LET p == TLCEval(Cis(u, m - 1)) IN <<M4(p[1], u[1]) - M4(p[2], u[2]), M4(p[1], u[2]) + M4(p[2], u[1])>>
\* gradient (1e-4) on the unit sphere of r^-(n+1) times the harmonic with coefficients c, s (1e-3): radial and tangential part together
Term(u, n, m, c, s) ==
  LET q == Poly[n][m + 1]
      h == TLCEval(Horner(q, u[3], 1)) dh == TLCEval(Horner(Diff(q), u[3], 1))
      z == TLCEval(Cis(u, m)) w == TLCEval(IF m = 0 THEN <<0, 0>> ELSE Cis(u, m - 1))
      k == (c * z[1] + s * z[2]) \div 1000                 \* the longitude part
      kx == (m * (c * w[1] + s * w[2])) \div 1000
      ky == (m * (s * w[1] - c * w[2])) \div 1000
      g == <<M4(h, kx), M4(h, ky), M4(dh, k)>>
      r == M4(g[1], u[1]) + M4(g[2], u[2]) + M4(g[3], u[3])
  IN [i \in 1..3 |-> g[i] - M4(r, u[i]) - (n + 1) * M4(M4(h, k), u[i])]
RECURSIVE Pow(_, _)
Pow(a, n) == IF n = 0 THEN 10000 ELSE M4(Pow(a, n - 1), a)
Root2 == <<17321, 22361, 26458, 30000, 33166, 36056>>      \* sqrt(2n + 1)
RECURSIVE Sum(_, _, _, _)
\* terms <<n, m, c, s>> up to a degree; rho = R/r in 1e-4
Sum(T, u, rho, deg) ==
  IF T = <<>> THEN <<0, 0, 0>> ELSE
  LET t == T[1] rest == TLCEval(Sum(Tail(T), u, rho, deg)) IN
  IF t[1] > deg THEN rest ELSE
  LET g == TLCEval(Term(u, t[1], t[2], t[3], t[4])) f == M4(Pow(rho, t[1] + 2), Root2[t[1]]) IN [i \in 1..3 |-> rest[i] + M4(g[i], f)]
RECURSIVE Weight(_, _)
Weight(T, rho) == IF T = <<>> THEN 0 ELSE Weight(Tail(T), rho) + M4(Pow(rho, T[1][1] + 2), ((Abs(T[1][3]) + Abs(T[1][4])) * (T[1][1] + 1) * (Root2[T[1][1]] \div 100)) \div 10)
Deg == IF set.file /\ set.deg >= 2 THEN set.deg ELSE 0
Up10(p) == ISqrt(100 * N2(p))                              \* length, in 1e-4
Unit(p) == [i \in 1..3 |-> RDiv(p[i] * 100000, Up10(p))]
VN(a, b, tol) == \A i \in 1..3 : Near(a[i], b[i], tol)
ByMat(m, v) == [i \in 1..3 |-> RDiv(Dot(m[i], v), 10000)]
Good(v) == \A i \in 1..3 : Abs(v[i]) < 100000000
Cent(v) == [i \in 1..3 |-> TDiv(v[i], 100)]
Ortho(m) == \A i \in 1..3 : VN(m[i], m[i], 0) /\ Near(Dot(m[i], m[i]) \div 10000, 10000, 4) /\ Near(TDiv(Dot(m[i], m[(i % 3) + 1]), 10000), 0, 4)
Gravity(e, r) ==
  LET u == ByMat(r.m, Unit(e.p)) rho == 100000000 \div Up10(e.p)
      x == Sum(set.cs, u, rho, Deg) tol == 12 + Weight(set.cs, rho) \div 600
  IN /\ Good(r.a) /\ Good(r.x) /\ r.o = 0 /\ Ortho(r.m)
     /\ IF ~set.on THEN r.a = Z3
        ELSE IF Deg = 0 THEN r.a = Z3 /\ r.x = Z3
        ELSE VN(r.x, x, tol) /\ VN(ByMat(r.m, Cent(r.a)), Cent(r.x), 3 + tol \div 100)
\* the gradient of the acceleration: symmetric, without trace, and the rate at which the acceleration changes
Gradient(r) ==
  LET big == Max2(Max2(Max2(Abs(r.j[1][1]), Abs(r.j[2][2])), Max2(Abs(r.j[3][3]), Abs(r.j[1][2]))), Max2(Abs(r.j[1][3]), Abs(r.j[2][3]))) IN
  /\ \A i \in 1..3 : Good(r.j[i]) /\ Good(r.d[i])
  /\ \A i \in 1..3, k \in 1..3 : r.j[i][k] = r.j[k][i] /\ Near(r.j[i][k], r.d[i][k], 3 + big \div 20000)
  /\ Near(r.j[1][1] + r.j[2][2] + r.j[3][3], 0, 3)
\* --- the magnetic field: minus the gradient, Schmidt normalised; coefficients and change per year (nT), at 2010
\* they change at that rate until 2020, at minus twice the rate until 2030, and at three times the rate from then on; years in tenths
Drift(y) == IF y < 20200 THEN y - 20100 ELSE IF y < 20300 THEN 100 - 2 * (y - 20200) ELSE 3 * (y - 20300) - 100
Main == << <<1, 0, -20000, 0, 40, 0>>, <<1, 1, -6000, 9000, -100, 20>>, <<2, 0, -4000, 0, 0, 0>>, <<2, 1, 5000, -3000, 60, 0>>, <<2, 2, 2500, -7000, 0, 100>>,
           <<3, 0, 3000, 0, 0, 0>>, <<3, 1, -2000, 1500, 0, 0>>, <<3, 2, 1800, 2600, 0, -40>>, <<3, 3, -1200, 2200, 0, 0>> >>
RECURSIVE MagSum(_, _, _, _)
MagSum(T, u, rho, dy) ==
  IF T = <<>> THEN Z3 ELSE
  LET t == T[1] rest == TLCEval(MagSum(Tail(T), u, rho, dy))
      c == t[3] + TDiv(t[5] * dy, 10) s == t[4] + TDiv(t[6] * dy, 10)
      g == TLCEval(Term(u, t[1], t[2], c, s)) f == Pow(rho, t[1] + 2) IN [i \in 1..3 |-> rest[i] - TDiv(M4(g[i], f), 10)]
Long(p) == ISqrt(N2(p))
Magnet(e, r) ==
  LET L == Long(r.p) u == [i \in 1..3 |-> RDiv(r.p[i] * 10000, L)] rho == 100000000 \div L
      b == RotZ(1000 * e.g, [i \in 1..3 |-> TDiv(MagSum(Main, u, rho, Drift(e.yr))[i], 5)])
      sg == IF e.w = 1 /\ set.two THEN -5 ELSE 5
      noise == IF e.w = 1 THEN set.sd ELSE 0
  IN IF ~set.on THEN r.i = Z3 /\ r.b = Z3 /\ r.l = Z3
     ELSE /\ Good(r.i) /\ Good(r.b)
          /\ VN(r.l, r.i, 1 + (Abs(r.i[1]) + Abs(r.i[2]) + Abs(r.i[3])) \div 50000)
          /\ VN(r.b, [i \in 1..3 |-> TDiv(App(Rot(e.q), r.i)[i], N2(e.q))], 4)
          /\ VN(r.i, [i \in 1..3 |-> sg * b[i]], 100 + 7 * noise)
          /\ (noise > 0 => ~VN(r.i, [i \in 1..3 |-> sg * b[i]], 100))
\* --- the air
\* base altitude (km), logarithm of the density there, scale height (m)
Layers == <<<<1000, -334339, 268000>>, <<900, -328815, 181050>>, <<800, -320792, 124640>>, <<700, -309514, 88667>>, <<600, -295593, 71835>>, <<500, -279924, 63822>>, <<450, -271704, 60828>>, <<400, -263160, 58515>>, <<350, -254164, 53298>>, <<300, -244455, 53628>>, <<250, -233477, 45546>>, <<200, -220002, 37105>>, <<180, -213277, 29740>>, <<150, -199957, 22523>>, <<140, -193765, 16149>>, <<130, -185851, 12636>>, <<120, -175295, 9473>>, <<110, -161526, 7263>>, <<100, -144510, 5877>>, <<90, -125929, 5382>>, <<80, -108684, 5799>>, <<70, -93416, 6549>>, <<60, -80453, 7714>>, <<50, -68523, 8382>>, <<40, -55285, 7554>>, <<30, -40319, 6682>>, <<25, -32445, 6349>>, <<0, 2029, 7249>>>>
\* altitude (km), logarithms of the densities opposite to and in the bulge
HP == <<<<100, -145139, -145139>>, <<120, -175084, -175084>>, <<130, -185978, -185588>>, <<140, -193625, -193223>>, <<150, -199709, -199280>>, <<160, -204898, -204276>>, <<170, -209454, -208559>>, <<180, -213614, -212324>>, <<190, -217402, -215679>>, <<200, -220870, -218746>>, <<210, -224166, -221521>>, <<220, -227324, -224090>>, <<230, -230310, -226508>>, <<240, -233151, -228800>>, <<250, -235864, -230976>>, <<260, -238461, -233062>>, <<270, -240959, -235068>>, <<280, -243363, -237002>>, <<290, -245681, -238872>>, <<300, -247931, -240683>>, <<320, -252340, -244078>>, <<340, -256550, -247301>>, <<360, -260574, -250380>>, <<380, -264450, -253329>>, <<400, -268205, -256172>>, <<420, -271876, -258934>>, <<440, -275439, -261597>>, <<460, -278923, -264185>>, <<480, -282336, -266709>>, <<500, -285685, -269171>>, <<520, -288972, -271579>>, <<540, -292197, -273944>>, <<560, -295362, -276260>>, <<580, -298456, -278545>>, <<600, -301480, -280789>>, <<620, -304424, -282999>>, <<640, -307279, -285175>>, <<660, -310036, -287321>>, <<680, -312684, -289437>>, <<700, -315218, -291520>>, <<720, -317618, -293576>>, <<740, -319886, -295607>>, <<760, -322008, -297597>>, <<780, -323992, -299563>>, <<800, -325831, -301494>>, <<840, -329955, -304886>>, <<880, -333756, -307987>>, <<920, -337458, -310952>>, <<960, -340941, -313775>>, <<1000, -343990, -316429>>>>
ExpTab == <<10000, 11052, 12214, 13499, 14918, 16487, 18221, 20138, 22255, 24596, 27183, 30042, 33201, 36693, 40552, 44817, 49530, 54739, 60496, 66859, 73891, 81662, 90250, 99742, 110232, 121825, 134637, 148797, 164446, 181741, 200855, 221980, 245325>>
Exp(x) == LET k == x \div 1000 d == x % 1000 IN M4(ExpTab[k + 1], 10000 + d + (d * d) \div 20000 + 1)     \* 0 <= x < 3.2
RECURSIVE Layer(_, _)
Layer(a, i) == IF a >= 100 * Layers[i][1] THEN Layers[i] ELSE Layer(a, i + 1)       \* a in 10 m
Std(a) == LET l == Layer(a, 1) IN l[2] - (((a - 100 * l[1]) * 10000) \div l[3]) * 10
RECURSIVE Row(_, _)
Row(a, i) == IF a < 100 * HP[i + 1][1] THEN i ELSE Row(a, i + 1)
Lerp(a, i, j) == LET d == 100 * (HP[i + 1][1] - HP[i][1]) IN HP[i][j] + TDiv((HP[i + 1][j] - HP[i][j]) * ((a - 100 * HP[i][1]) \div 2), d \div 2)
\* the bulge lags the Sun by 30 degrees; c2 = cos2 of half the angle between the place and the bulge, 1e-4
Bulge(u, s) == LET b == RotZ(30000, s) IN (10000 + TDiv(Dot(u, b), 10000)) \div 2
HarrisOk(a, u, s, ln, sd) ==
  IF a < 10000 THEN Near(ln, HP[1][2], 20 + 700 * sd)
  ELSE IF a >= 100000 THEN LET n == HP[Len(HP)] IN (sd > 0 \/ Near(2 * Exp(ln - n[2]), 10000 + Exp(n[3] - n[2]), 60))
  ELSE LET i == Row(a, 1) m == Lerp(a, i, 2) x == Lerp(a, i, 3) c2 == Bulge(u, s) IN
       /\ ln - m \in (-40 - 700 * sd)..(31000 + 700 * sd)
       /\ sd > 0 \/ LET f == Exp(Max2(0, ln - m)) want == 10000 + M4(Exp(x - m) - 10000, M4(c2, c2)) IN Near(f, want, 60 + want \div 100)
DenseOk(model, a, u, s, r, sd) ==
  /\ ~r.bad /\ ~r.zero /\ Abs(r.ln) < 2000000
  /\ IF model = "STANDARD" THEN Near(r.ln, Std(a), 45 + 700 * sd) ELSE HarrisOk(a, u, s, r.ln, sd)
Dir(s) == LET m == Max2(Max2(Abs(s[1]), Abs(s[2])), Abs(s[3])) d == Max2(m \div 2500, 1) t == [i \in 1..3 |-> IF m > 2500 THEN TDiv(s[i], d) ELSE s[i] * (2500 \div m)] IN Unit(t)
Air(e, r) ==
  /\ r.alt - 100 * ISqrt(N2(e.p)) \in -638000..-635500
  /\ IF ~set.on \/ set.model = "NONE" THEN r.zero /\ r.same /\ r.log /\ r.again /\ r.ms = 0
     ELSE /\ ~r.bad /\ r.same /\ r.log /\ (r.again <=> set.sd = 0)    \* the noise is in the density kept
          /\ IF set.model = "NRLMSISE00" THEN
                /\ r.ms = 1 /\ Near(r.ln, -345388, 5 + 700 * set.sd)
                /\ Near(r["in"].sec, 3600 * e.h, 5) /\ Near(r["in"].alt, r.alt, 2) /\ r["in"].lat = 0 /\ r["in"].lon = 0
                /\ Near(r["in"].lst, 3600 * e.h + r["in"].lo, 8)
                /\ r["in"].f = set.f /\ r["in"].fa = set.fa /\ r["in"].ap = set.ap /\ r["in"].doy - e.day \in -1..2
             ELSE r.ms = 0 /\ DenseOk(set.model, r.alt, Unit([i \in 1..3 |-> TDiv(e.p[i], 4)]), Dir(sun), r, set.sd)
\* --- steps
Do(e) ==
  \/ /\ e.op = "reset" /\ sun' = <<149000000, 0, 0>> /\ out' = [k |-> "reset"]
     /\ set' = [kind |-> e.kind, cs |-> e.cs, deg |-> e.deg, on |-> e.on, file |-> e.file, sd |-> e.sd, two |-> e.two, model |-> e.model,
                f |-> IF e.f < 50 /\ e.ini THEN 150 ELSE e.f, fa |-> IF e.fa < 50 /\ e.ini THEN 150 ELSE e.fa, ap |-> e.ap]
  \/ /\ Is(set) /\ UNCHANGED set
     /\ \/ e.op = "body" /\ (e.b = "SUN" => sun' = e.s) /\ (e.b # "SUN" => UNCHANGED sun) /\ out' = [k |-> "none"]
        \/ e.op = "at" /\ UNCHANGED sun /\ out' = [k |-> set.kind]
        \/ e.op = "grad" /\ set.kind \in {"earth", "moon"} /\ UNCHANGED sun /\ out' = [k |-> "grad"]
        \/ e.op = "dens" /\ UNCHANGED sun /\ out' = [k |-> "dens"]
Match(e, o) ==
  CASE o.k = "none" -> TRUE
    [] o.k = "reset" -> IF set'.kind \in {"earth", "moon"} THEN ~e.r.dep ELSE TRUE
    [] o.k \in {"earth", "moon"} -> Gravity(e, e.r)
    [] o.k = "grad" -> Gradient(e.r)
    [] o.k = "mag" -> Magnet(e, e.r)
    [] o.k = "air" -> Air(e, e.r)
    [] OTHER -> DenseOk(e.model, 10 * e.alt, e.r.p, Dir(e.s), e.r, 0)
=============================================================================
