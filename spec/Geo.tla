-------------------------------- MODULE Geo --------------------------------
(* A geodetic position: latitude, longitude and height above the ellipsoid, its earth-fixed position and its local frame
   (east, north, up). Sines and cosines in 1e-6, metres.  n = R / sqrt(1 - e2 sin^2) by its series: R (1 + e2 s^2 / 2 + ...).
   Anchor: math_physics/geodesy/geodetic_position.*                                                                    *)
EXTENDS VTGeo, TLC
VARIABLES g, out
vars == <<g, out>>
M == 1000000
Sg(x) == IF x < 0 THEN -1 ELSE 1
\* a * s / 10^6 without overflow, |a| < 2 * 10^8, |s| <= 10^6
MD(a, s) == LET x == Abs(a) y == Abs(s) a1 == x \div 10000 a0 == x % 10000 s1 == y \div 1000 s0 == y % 1000 IN
            Sg(a) * Sg(s) * (10 * a1 * s1 + (a1 * s0) \div 100 + (a0 * s1) \div 1000 + (a0 * s0) \div M)
Fr(s, n) == IF Abs(s) = n THEN Sg(s) * M ELSE TDiv(s * M, n)
R0 == 6378137
Nn(sl) == LET s2 == MD(sl, sl) IN R0 + MD(21349, s2) + MD(107, MD(s2, s2)) + MD(1, MD(s2, MD(s2, s2)))
\* z shrinks by 1 - e2, e2 = 0.00669438 = 6694 * 10^-6 and 2.4 m more
Ecef(a) == LET n == Nn(a.sl) r == MD(n + a.h, a.cl) IN <<MD(r, a.co), MD(r, a.so), MD(n - MD(n, 6694) - 2 + a.h, a.sl)>>
Tol(a) == 22 + Abs(a.h) \div 150000
None == [k |-> "none"]
Init == g = None /\ out = None
Known(a) == [k |-> "set", a |-> a, p |-> Ecef(a), tol |-> Tol(a)]
Do(e) ==
  \/ /\ e.op = "reset" /\ g' = [k |-> "set", a |-> [sl |-> 0, cl |-> M, so |-> 0, co |-> M, h |-> 0]] /\ out' = Known(g'.a)
  \/ /\ g # None
     /\ \/ /\ e.op = "set" /\ g' = [k |-> "set", a |-> [sl |-> Fr(e.la[1], e.la[3]), cl |-> Fr(e.la[2], e.la[3]), so |-> Fr(e.lo[1], e.lo[3]), co |-> Fr(e.lo[2], e.lo[3]), h |-> e.h]]
           /\ out' = Known(g'.a)
        \/ /\ e.op = "ecef" /\ g' = [k |-> "pos", p |-> e.p] /\ out' = [k |-> "pos", p |-> e.p]
        \* to the earth-fixed position and back: nothing changes
        \/ /\ e.op = "self" /\ g' = g /\ out' = IF g.k = "set" THEN Known(g.a) ELSE [k |-> "pos", p |-> g.p]
Ok(s) == \A i \in DOMAIN s : OkNum(s[i])
NearV(a, b, t) == \A i \in 1..3 : Near(a[i], b[i], t)
\* rows of the local frame in the earth-fixed one
Ltc(a) == << <<-a.so, a.co, 0>>, <<-MD(a.sl, a.co), -MD(a.sl, a.so), a.cl>>, <<MD(a.cl, a.co), MD(a.cl, a.so), a.sl>> >>
Match(e, o) == LET r == e.r a == [sl |-> r.t[1], cl |-> r.t[2], so |-> r.t[3], co |-> r.t[4], h |-> r.h] t == Tol(a) IN
  /\ OkNum(r.h) /\ Ok(r.t) /\ Ok(r.p) /\ Ok(r.x) /\ Ok(r.y) /\ Ok(r.z) /\ Ok(r.deg)
  /\ Abs(r.deg[1]) <= 9000 /\ (o.k = "pos" \/ e.op = "self" => r.deg[2] >= 0 /\ r.deg[2] <= 36000)
  /\ \A i \in 1..3 : \A j \in 1..3 : Near(<<r.x, r.y, r.z>>[j][i], Ltc(a)[i][j], 10)
  /\ Abs(r.err) <= 2
  /\ IF o.k = "set"
     THEN /\ Near(r.h, o.a.h, 1) /\ Near(a.sl, o.a.sl, 2) /\ Near(a.cl, o.a.cl, 2)
          /\ (o.a.cl # 0 \/ e.op = "set" => Near(a.so, o.a.so, 2) /\ Near(a.co, o.a.co, 2))      \* no longitude comes back from a pole
          /\ NearV(r.p, o.p, o.tol)
     ELSE NearV(r.p, o.p, 1) /\ NearV(Ecef(a), o.p, t + 8)
=============================================================================
