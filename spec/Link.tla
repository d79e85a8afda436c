-------------------------------- MODULE Link --------------------------------
(* A ground station, the spacecraft it sees, and the radio links between them.
   Spacecraft are placed relative to the station: a direction in its local frame (east, north, up; integer vector of
   integer norm) and a distance of 1000 * 2^kk km. Attitudes turn the station's local frame to the body frame, antennas
   have an integer quaternion (body, or local frame on the ground, to antenna frame), so that every angle is exact.
   Levels in 1/1000 dB, powers 2^p W, noise 100 * 2^b K, frequencies 300 * 2^m MHz, bit rates 10^c 2^d.
   Anchors: simulation/ground_station/ground_station.*, components/real/communication/{antenna,antenna_radiation_pattern,
            ground_station_calculator}.*, math_physics/geodesy/geodetic_position.*                                          *)
EXTENDS VTGeo, TLC
VARIABLES gs, sc, ant, cal, out
vars == <<gs, sc, ant, cal, out>>
None == [none |-> TRUE]
Init == gs = None /\ sc = <<>> /\ ant = [s |-> None, g |-> None] /\ cal = None /\ out = [ok |-> TRUE]
Is(x) == "none" \notin DOMAIN x
Keep(e) == [x \in DOMAIN e \ {"op", "r"} |-> e[x]]
\* elevation above the limit
SinLim == IF gs.lim < 0 THEN -Sin(-gs.lim) ELSE Sin(gs.lim)
Vis(s) == Above((s.d[3] * 100000) \div Nrm(s.d), SinLim, 4)
\* a place above the ground (100 km and more)
\* |gs + d u|^2 > (R + 100 km)^2  <=  d^2 + 2 d R sin > 2 * 100 * R (1 + small), all over 1000 km
High(d, kk) == LET x == 2^kk sn == (d[3] * 1000) \div Nrm(d) IN x * 1000 + (1276 * sn) \div 100 > (IF d[3] > 0 THEN 0 ELSE 1600 \div x)
\* rows and columns of a pattern a direction may fall into: the nearest grid angle, step degrees apart
Cells(n, step, ge(_)) == {j \in 0..(n - 1) : (j = 0 \/ ge((2 * j - 1) * step) # 0) /\ (j = n - 1 \/ ge((2 * j + 1) * step) # 1)}
RowsOf(a, u) == Cells(a.nt, a.st, LAMBDA e2 : IF a.st * a.nt * 2 < e2 THEN 0 ELSE AngGE(u[3], u[1] * u[1] + u[2] * u[2], e2 \div 2))
ColsOf(a, u) == IF u[2] < 0 \/ (u[2] = 0 /\ u[1] <= 0) THEN 0..(a.np - 1) ELSE Cells(a.np, a.sp, LAMBDA e2 : AngGE(u[1], u[2] * u[2], e2 \div 2))
PGain(a, i, j) == a.g0 + 400 * i + 70 * j
Gains(a, u) == IF a.pat THEN {PGain(a, i, j) : i \in RowsOf(a, u), j \in ColsOf(a, u)} ELSE {a.g0}
\* directions: of the station in the spacecraft antenna's frame, of the spacecraft in the station antenna's frame
OnSc(s) == App(Rot(ant.s.q), App(Rot(s.att), <<-s.d[1], -s.d[2], -s.d[3]>>))
OnGs(s) == App(Rot(ant.g.q), s.d)
Log2(n) == (30103 * n) \div 10
Loss(s) == 141984 + 2 * Log2(s.kk + ant.s.m)
Cn0s(s) == {Log2(ant.s.p) + ant.s.lf + ant.s.lp + g1 - Loss(s) + cal.a + cal.b + cal.c + cal.d + g2 + ant.g.rlf + ant.g.rlp - 20000 - Log2(ant.g.nb) + 228599 :
            g1 \in Gains([ant.s EXCEPT !.g0 = @], OnSc(s)), g2 \in Gains([ant.g EXCEPT !.g0 = ant.g.rg0], OnGs(s))}
Need == cal.eb + cal.hw + cal.cg
Rate(c) == c - Need - cal.mr
Margin(c) == c - Need - 10000 * ant.s.bc - Log2(ant.s.bd)
\* the link of spacecraft i as the calculator last evaluated it
Link(i) == LET s == sc[i] IN
  IF ~s.v THEN [k |-> "no"]
  ELSE IF ~(ant.s.tx /\ ant.g.rx) THEN [k |-> "off"]
  ELSE [k |-> "yes", s |-> {[b |-> Rate(c), m |-> Margin(c)] : c \in Cn0s(s)}]
Pos == LET r == 637814 + 100 * gs.h p == 635675 + 100 * gs.h IN
       IF gs.lat = 90 THEN <<0, 0, p>> ELSE IF gs.lat = -90 THEN <<0, 0, -p>>
       ELSE CASE gs.lon % 360 = 0 -> <<r, 0, 0>> [] gs.lon % 360 = 90 -> <<0, r, 0>> [] gs.lon % 360 = 180 -> <<-r, 0, 0>> [] gs.lon % 360 = 270 -> <<0, -r, 0>> [] OTHER -> Z3
PosKnown == gs.lat \in {90, -90} \/ (gs.lat = 0 /\ gs.lon % 90 = 0)
\* v: was visible at the station's last update (one of two values when at the very edge: taken from the observation)
Upd(s, e, i) == LET x == Vis(s) IN [s EXCEPT !.v = IF x = 2 THEN (IF "r" \in DOMAIN e /\ "vis" \in DOMAIN e.r THEN e.r.vis[i] ELSE FALSE) ELSE x = 1]
See(l) == out' = [vis |-> [i \in 1..Len(sc') |-> sc'[i].v], link |-> l, seen |-> \E i \in 1..Len(sc') : sc'[i].u]
NoLink == [k |-> "none"]
Do(e) ==
  \/ /\ e.op = "reset" /\ gs' = Keep(e) /\ sc' = [i \in 1..e.n |-> [d |-> <<0, 0, 1>>, kk |-> 0, att |-> Id, v |-> FALSE, u |-> FALSE]]
     /\ ant' = [s |-> None, g |-> None] /\ cal' = None /\ See(NoLink)
  \/ /\ Is(gs) /\ UNCHANGED gs
     /\ \/ e.op = "place" /\ e.i <= Len(sc) /\ High(e.d, e.kk) /\ sc' = [sc EXCEPT ![e.i].d = e.d, ![e.i].kk = e.kk, ![e.i].att = e.q] /\ UNCHANGED <<ant, cal>> /\ See(NoLink)
        \/ e.op = "upd" /\ e.i <= Len(sc) /\ sc' = [sc EXCEPT ![e.i] = [Upd(@, e, e.i) EXCEPT !.u = TRUE]] /\ UNCHANGED <<ant, cal>> /\ See(NoLink)
        \* time passes: the Earth turns, and everything with it
        \/ e.op = "turn" /\ sc' = [i \in 1..Len(sc) |-> [Upd(sc[i], e, i) EXCEPT !.u = TRUE]] /\ UNCHANGED <<ant, cal>> /\ See(NoLink)
        \/ e.op = "ant" /\ ant' = [ant EXCEPT ![e.a] = Keep(e)] /\ UNCHANGED <<sc, cal>> /\ See(NoLink)
        \/ e.op = "cal" /\ cal' = Keep(e) /\ UNCHANGED <<sc, ant>> /\ See(NoLink)
        \/ e.op = "link" /\ e.i <= Len(sc) /\ sc[e.i].u /\ Is(cal) /\ Is(ant.s) /\ Is(ant.g) /\ UNCHANGED <<sc, ant, cal>> /\ See(Link(e.i))
Tol == 8
MLink(r, o) ==
  CASE o.k = "none" -> TRUE
    [] o.k = "no" -> ~r.has /\ r.m = -10000000
    [] o.k = "off" -> Rate(0) > 0 \/ ~r.has
    [] OTHER -> /\ OkNum(r.m) /\ OkNum(r.b)
                /\ \E x \in o.s : /\ Near(r.m, x.m, Tol)
                                  /\ IF x.b > Tol THEN r.has /\ Near(r.b, x.b, Tol) ELSE IF x.b < -Tol THEN ~r.has ELSE TRUE
Match(e, o) == LET r == e.r IN
  /\ r.vis = o.vis
  /\ (o.seen /\ PosKnown => \A j \in 1..3 : OkNum(r.pos[j]) /\ Near(r.pos[j], Pos[j], 3))
  /\ (o.link.k # "none" => MLink(r.link, o.link))
=============================================================================
