------------------------------- MODULE Products -------------------------------
(* GNSS products (orbits and clocks, antennas, biases) as their files describe them, and the numbers of the satellites.
   A file is given as what it says; `cut` is the number of records it has before it breaks off (-1: complete).
   Positions in dm, clocks in ns, antenna lengths in 1e-2 mm, biases in 1e-3, slopes in 1e-6.
   Anchors: math_physics/gnss/{sp3_file_reader,antex_file_reader,bias_sinex_file_reader,gnss_satellite_number}.cpp      *)
EXTENDS VTLib, TLC
VARIABLES sp3, atx, bsx, out
vars == <<sp3, atx, bsx, out>>
None == [none |-> TRUE]
Is(x) == "none" \notin DOMAIN x
\* --- numbers of satellites: all systems in one row
Sys == <<"G", "R", "E", "C", "J", "I">>
Count == <<32, 26, 28, 62, 5, 7>>
RECURSIVE Before(_)
Before(i) == IF i = 1 THEN 0 ELSE Before(i - 1) + Count[i - 1]
Two(n) == (IF n < 10 THEN "0" ELSE "") \o ToString(n)
Number(k) == IF k >= Before(6) + Count[6] THEN "err" ELSE LET i == CHOOSE x \in 1..6 : Before(x) <= k /\ k < Before(x) + Count[x] IN Sys[i] \o Two(k - Before(i) + 1)
Index(s, n) == IF \E x \in 1..6 : Sys[x] = s THEN Before(CHOOSE x \in 1..6 : Sys[x] = s) + n - 1 ELSE -1
\* --- orbits and clocks
Top == [n |-> Len(sp3.ep), sats |-> Len(sp3.ids), mode |-> sp3.mode, first |-> sp3.first, dt |-> sp3.dt, gps |-> sp3.gps, mjd |-> sp3.mjd, frac |-> sp3.frac, ids |-> sp3.ids, acc |-> sp3.acc,
         used |-> sp3.used, sys |-> sp3.sys, orb |-> sp3.orb, ag |-> sp3.ag, ft |-> sp3.ft, ts |-> sp3.ts, bp |-> sp3.bp, bc |-> sp3.bc]
NoTop == [n |-> 0, sats |-> 0]
\* records are the epochs and, within them, the satellites
Per == Len(sp3.ids) + 1
Whole(k) == sp3.cut < 0 \/ k <= sp3.cut
HasEpoch(i) == sp3.there /\ i < Len(sp3.ep) /\ Whole(i * Per + 1)
HasSat(i, k) == HasEpoch(i) /\ k < Len(sp3.ids) /\ Whole(i * Per + k + 2)
Flag(x, i) == IF Len(x.fl) = 4 THEN x.fl[i] ELSE FALSE
Sd(x, i) == IF Len(x.sd) = 4 /\ x.sd[i] >= 0 THEN x.sd[i] ELSE 0
Rec(i, k) == LET x == sp3.ep[i + 1].s[k + 1] IN [id |-> sp3.ids[k + 1], p |-> x.p, c |-> x.c, sd |-> <<Sd(x, 1), Sd(x, 2), Sd(x, 3), Sd(x, 4)>>, fl |-> <<Flag(x, 1), Flag(x, 2), Flag(x, 3), Flag(x, 4)>>]
NoRec == [id |-> "", p |-> <<0, 0, 0>>, c |-> 1000000000, sd |-> <<0, 0, 0, 0>>, fl |-> <<FALSE, FALSE, FALSE, FALSE>>]
\* the epoch nearest to a time (ms after the first), any of two at the same distance
Nearest(ms, i) == LET d == sp3.dt IN i \in 0..(Len(sp3.ep) - 1) /\ \A j \in 0..(Len(sp3.ep) - 1) : Abs(ms - i * d) <= Abs(ms - j * d)
\* --- antennas
Mine(n, s) == SelectSeq(atx.ants, LAMBDA a : ~a.rx /\ a.s = s /\ a.n = n)
AntWhole(i) == atx.cut < 0 \/ i <= atx.cut
Zen(g) == (g[2] - g[1]) \div g[3] + 1
AntView(a, f) == [type |-> a.type, nf |-> Len(a.f), from |-> a.from, to |-> a.to, name |-> a.f[f + 1].name, o |-> a.f[f + 1].o, v |-> a.f[f + 1].v, grid |-> a.g, nz |-> Zen(a.g)]
Closest(g, z, i) == i \in 0..(Zen(g) - 1) /\ \A j \in 0..(Zen(g) - 1) : Abs(10 * (z - g[1]) - 10 * i * g[3]) <= Abs(10 * (z - g[1]) - 10 * j * g[3])
\* --- biases
Signal(a, b) == CASE a = "C1W" /\ b = "C2W" -> 0 [] a = "C1P" /\ b = "C2P" -> 0 [] a = "C1P" /\ b = "C1C" -> 1 [] a = "C2P" /\ b = "C2C" -> 2 [] OTHER -> 3
BiasView(b) == [id |-> CASE b.id = "DSB" -> 0 [] b.id = "ISB" -> 1 [] b.id = "OSB" -> 2 [] OTHER -> 3, svn |-> b.svn, st |-> b.st, sig |-> Signal(b.o1, b.o2), unit |-> CASE b.unit = "ns" -> 0 [] b.unit = "cyc" -> 1 [] OTHER -> 2,
                v |-> b.v, sd |-> b.sd, sl |-> IF Len(b.sl) > 0 THEN b.sl[1] ELSE 0, ssd |-> IF Len(b.sl) > 1 THEN b.sl[2] ELSE 0]
Biases == IF bsx.cut < 0 THEN Len(bsx.b) ELSE Min2(bsx.cut, Len(bsx.b))
Init == sp3 = None /\ atx = None /\ bsx = None /\ out = [k |-> "none"]
Do(e) ==
  \/ e.op = "reset" /\ sp3' = None /\ atx' = None /\ bsx' = None /\ out' = [k |-> "none"]
  \/ e.op = "sp3" /\ sp3' = e.f /\ UNCHANGED <<atx, bsx>> /\ out' = [k |-> "sp3"]
  \/ e.op = "atx" /\ atx' = e.f /\ UNCHANGED <<sp3, bsx>> /\ out' = [k |-> "atx"]
  \/ e.op = "bsx" /\ bsx' = e.f /\ UNCHANGED <<sp3, atx>> /\ out' = [k |-> "bsx"]
  \/ Is(sp3) /\ e.op \in {"get", "epoch"} /\ UNCHANGED <<sp3, atx, bsx>> /\ out' = [k |-> e.op]
  \/ Is(sp3) /\ e.op = "near" /\ sp3.there /\ sp3.cut < 0 /\ UNCHANGED <<sp3, atx, bsx>> /\ out' = [k |-> "near"]
  \/ Is(atx) /\ e.op = "ant" /\ atx.cut < 0 /\ atx.there /\ UNCHANGED <<sp3, atx, bsx>> /\ out' = [k |-> "ant"]
  \/ Is(bsx) /\ e.op = "bias" /\ bsx.there /\ e.i < Biases /\ UNCHANGED <<sp3, atx, bsx>> /\ out' = [k |-> "bias"]
  \/ e.op \in {"grid", "azi", "num", "idx"} /\ UNCHANGED <<sp3, atx, bsx>> /\ out' = [k |-> e.op]
Match(e, o) ==
  CASE o.k = "none" -> TRUE
    [] o.k = "sp3" -> e.r = IF sp3'.there THEN Top' ELSE NoTop
    [] o.k = "get" -> e.r = IF HasSat(e.i, e.k) THEN Rec(e.i, e.k) ELSE NoRec
    [] o.k = "epoch" -> e.r.t = IF HasEpoch(e.i) THEN sp3.ep[e.i + 1].t ELSE <<0, 1, 1, 0, 0, 0>>
    [] o.k = "near" -> Nearest(e.ms, e.r.i)
    [] o.k = "atx" -> e.r.ok = atx'.there /\ IF ~atx'.there THEN e.r.n = 0 ELSE LET N(c) == Cardinality({<<atx'.ants[i].s, atx'.ants[i].n>> : i \in {x \in 1..Len(atx'.ants) : x <= c /\ ~atx'.ants[x].rx}}) IN
                         IF atx'.cut < 0 THEN e.r.n = N(Len(atx'.ants)) ELSE e.r.n \in {N(atx'.cut), N(atx'.cut + 1)}
    [] o.k = "ant" -> LET a == Mine(e.n, e.s) IN e.r.n = Len(a) /\ e.r.v = AntView(a[e.j + 1], e.f)
    [] o.k = "bsx" -> e.r = [ok |-> bsx'.there, n |-> IF bsx'.there THEN Biases' ELSE 0]
    [] o.k = "bias" -> e.r = BiasView(bsx.b[e.i + 1])
    [] o.k = "grid" -> Closest(e.g, e.z, e.r.i) /\ e.r.n = Zen(e.g)
    [] o.k = "azi" -> LET n == 3600 \div e.a + 1 IN e.r.n = n /\ e.r.i \in 0..(n - 1) /\ \A j \in 0..(n - 1) : Abs(e.z - e.r.i * e.a) <= Abs(e.z - j * e.a)
    [] o.k = "num" -> e.r.i = Index(e.s, e.n)
    [] OTHER -> e.r.s = Number(e.i)
=============================================================================
