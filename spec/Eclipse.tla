------------------------------ MODULE Eclipse ------------------------------
(* Solar radiation at a spacecraft: the discs of the shadow bodies in front of
   the disc of the Sun.  Angles in 1/16 of the apparent radius of the Sun
   (disc[body] = <<apparent radius, separation from the Sun's centre>>), Sun
   distance in 1/2 AU, coefficient in 1e-4.
   Anchors: environment/local/solar_radiation_pressure_environment.*          *)
EXTENDS VTLib, TLC
VARIABLES src, calc, sun, disc, last, out
vars == <<src, calc, sun, disc, last, out>>
Bodies == {"EARTH", "MOON", "MARS", "VENUS"}
Dark == [c |-> 10000, d |-> 2]
Init == src = <<>> /\ calc = FALSE /\ sun = 2 /\ disc = [b \in Bodies |-> <<16, 64>>] /\ last = Dark /\ out = [ok |-> TRUE]
RECURSIVE Isq(_, _, _)
Isq(n, lo, hi) == IF hi - lo <= 1 THEN lo ELSE LET m == (lo + hi) \div 2 IN IF m * m <= n THEN Isq(n, m, hi) ELSE Isq(n, lo, m)
Sqrt(n) == IF n <= 0 THEN 0 ELSE Isq(n, 0, 46340)
\* visible fraction of the Sun's disc (radius 128) behind a disc of radius b, centre distance c (1/128 of the Sun's radius): rows of width 2
Row(y, b, c) == LET s == Sqrt(16384 - y * y)  x == Sqrt(b * b - y * y) IN
                IF y > b THEN 0 ELSE Max2(0, Min2(s, c + x) - Max2(-s, c - x))
RECURSIVE Rows(_, _, _)
Rows(y, b, c) == IF y > 128 THEN 0 ELSE Row(y, b, c) + Rows(y + 2, b, c)
Frac(q) == LET b == 8 * q[1]  c == 8 * q[2] IN
           IF c >= b + 128 THEN 10000
           ELSE IF c + 128 <= b THEN 0
           ELSE Max2(0, 10000 - (Rows(1, b, c) * 400) \div 515)    \* covered area 4 * rows over pi * 128^2 = 51472, in 1e-4
RECURSIVE Prod(_)
Prod(s) == IF s = <<>> THEN 10000 ELSE (Frac(disc[s[1]]) * Prod(Tail(s))) \div 10000
Reset(e) == /\ src' = <<"EARTH">> \o e.third /\ calc' = e.calc /\ sun' = 2 /\ disc' = [b \in Bodies |-> <<16, 64>>]
            /\ last' = Dark /\ out' = [c |-> 10000, sure |-> TRUE]
Place(e) == /\ disc' = [disc EXCEPT ![e.b] = <<e.q, e.s>>] /\ out' = [ok |-> TRUE] /\ UNCHANGED <<src, calc, sun, last>>
Sun(e) == /\ sun' = e.d /\ out' = [ok |-> TRUE] /\ UNCHANGED <<src, calc, disc, last>>
\* clear cut: every body clearly covers, or clearly misses, the disc
Clear(q) == q[2] * 100 >= (q[1] + 16) * 103 \/ (q[2] + 16) * 103 <= q[1] * 100
Upd(e) == /\ last' = IF calc THEN [c |-> Prod(src), d |-> sun] ELSE last
          /\ out' = [c |-> last'.c, d |-> last'.d, calc |-> calc,
                     sure |-> ~calc \/ (\A i \in 1..Len(src) : Clear(disc[src[i]])) \/ \E i \in 1..Len(src) : (disc[src[i]][2] + 16) * 103 <= disc[src[i]][1] * 100]
          /\ UNCHANGED <<src, calc, sun, disc>>
Do(e) == \/ e.op = "reset" /\ Reset(e)
         \/ src # <<>> /\ \/ e.op = "place" /\ Place(e)
                          \/ e.op = "sun" /\ Sun(e)
                          \/ e.op = "upd" /\ Upd(e)
Density(d) == 546400 \div (d * d)                       \* 1366 W/m2 at 1 AU, in 0.01 W/m2
UpdOk(r, o) ==
  /\ \A x \in {r.c, r.full, r.dens, r.logc, r.press} : x >= 0 /\ x < 100000000
  /\ IF o.sure THEN r.c = o.c ELSE Near(r.c, o.c, 250)
  /\ r.ecl = (r.c < 10000) \/ (Near(r.c, 10000, 1) /\ ~o.sure)
  /\ Near(r.logc, r.c, 1)
  /\ IF o.calc THEN Near(r.full, Density(o.d), 20) ELSE TRUE
  /\ Near(r.dens, (r.full \div 100) * (r.c \div 100) + ((r.full % 100) * r.c) \div 10000 + ((r.full \div 100) * (r.c % 100)) \div 100, 40)
  /\ Near(r.press, r.dens, 2)
Match(e, o) == IF e.op = "upd" THEN UpdOk(e.r, o) ELSE e.op = "reset" \/ e.r = o
=============================================================================
