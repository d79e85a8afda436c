------------------------------ MODULE Receiver ------------------------------
(* A GNSS receiver: which satellites its antenna sees, where it says they are, and the fix it reports.
   Anchors: components/real/aocs/gnss_receiver.{hpp,cpp}, environment/global/gnss_satellites.*, components/base/component.*
   Positions in km (the Earth-fixed frame stands still and is the inertial one), directions in 1e-4, fixes in 100 m.      *)
EXTENDS VTLib, VTGeo, TLC
VARIABLES set,    \* <<settings>>
          tick,   \* steps so far
          on,     \* powered
          last,   \* the last fix: [p, v, g], as far as known
          rx,     \* what is seen: [vis (2: either), least, most, sees: each satellite 0, 1, 2, utc]
          pd,     \* the last position and attitude
          out
vars == <<set, tick, on, last, rx, pd, out>>
Is(x) == x # <<>>
Earth2 == 6378 * 6378
NoFix == [p |-> Z3, v |-> Z3, g |-> <<>>]
Blind == [vis |-> 0, sees |-> <<>>, dirs |-> <<>>, dist |-> <<>>, utc |-> 0]
Init == set = <<>> /\ tick = 0 /\ on = TRUE /\ last = NoFix /\ rx = Blind /\ pd = <<>> /\ out = "none"
\* frames: inertial to body, body to antenna
Div(v, n) == [i \in 1..3 |-> TDiv(v[i], n)]
ToB(q, v) == Div(App(Rot(q), v), N2(q))
ToI(q, v) == Div(App(Trp(Rot(q)), v), N2(q))
\* a vector in km and its length: to a few kilometres
Len3(v) == 2 * ISqrt(N2(Div(v, 2))) + 1
Dir(v, l) == [i \in 1..3 |-> RDiv(v[i] * 10000, l)]
\* no Earth between a place a and something far away in direction u
Free(a, u) == LET s == TDiv(Dot(a, u), 10000) IN IF s >= 0 THEN 1 ELSE Above(N2(a) - s * s, Earth2, 150000)
Cone == set[1].model = "CONE" /\ set[1].on
Sight(p, q) == LET z == ToI(q, ToI(set[1].qc, <<0, 0, 10000>>)) IN
  IF ~Cone THEN [vis |-> Above(TDiv(Dot(p, z), 1000), 0, 9), sees |-> <<>>, dirs |-> <<>>, dist |-> <<>>]
  ELSE LET a == TLCEval([i \in 1..3 |-> p[i] + ToI(q, set[1].pos)[i]])
           n == Len(set[1].sats)
           d == TLCEval([k \in 1..n |-> [i \in 1..3 |-> set[1].sats[k][i] - a[i]]])
           l == TLCEval([k \in 1..n |-> Len3(d[k])])
           u == TLCEval([k \in 1..n |-> Dir(d[k], l[k])])
           s == TLCEval([k \in 1..n |-> And3(Free(a, u[k]), Above(TDiv(Dot(u[k], z), 10000), C4(1000 * set[1].half), 8))])
           least == Cardinality({k \in 1..n : s[k] = 1}) most == Cardinality({k \in 1..n : s[k] # 0})
       IN [vis |-> IF least >= 4 THEN 1 ELSE IF most < 4 THEN 0 ELSE 2, sees |-> s,
           dirs |-> [k \in 1..n |-> ToB(set[1].qc, ToB(q, u[k]))], dist |-> l]
Run(e) == LET s == Sight(e.p, e.q)
              v == IF s.vis # 2 THEN s.vis ELSE IF "r" \in DOMAIN e THEN (IF e.r.vis THEN 1 ELSE 0) ELSE 0 IN
  /\ rx' = [vis |-> s.vis, sees |-> s.sees, dirs |-> s.dirs, dist |-> s.dist, utc |-> set[1].s * tick']
  /\ last' = IF v = 1 THEN [p |-> [i \in 1..3 |-> 10 * e.p[i]], v |-> IF "r" \in DOMAIN e THEN e.r.tv ELSE e.v, g |-> IF "r" \in DOMAIN e THEN <<e.r.tg>> ELSE <<>>] ELSE last
Due == on /\ tick % set[1].pre = 0
Do(e) ==
  \/ /\ e.op = "reset" /\ tick' = 0 /\ on' = TRUE /\ last' = NoFix /\ rx' = Blind /\ pd' = <<>> /\ out' = "none"
     /\ set' = <<[sats |-> e.sats, on |-> e.on, model |-> e.model, half |-> e.half, qc |-> e.qc, pos |-> e.pos, pre |-> e.pre, s |-> e.s, pp |-> e.pp]>>
  \/ Is(set) /\ e.op = "pow" /\ on' = (e.on \/ ~set[1].pp) /\ out' = "seen" /\ UNCHANGED <<set, tick, last, rx, pd>>
  \/ Is(set) /\ e.op = "at" /\ tick' = tick + 1 /\ pd' = <<e.p, e.q>> /\ out' = "seen" /\ UNCHANGED <<set, on>>
     /\ IF Due THEN Run(e) ELSE UNCHANGED <<last, rx>>
VN(a, b, t) == \A i \in 1..3 : OkNum(a[i]) /\ Near(a[i], b[i], t)
Ids(r) == [i \in 1..Len(r.l) |-> r.l[i].id]
Seen(r, x) ==
  /\ r.n = Len(r.l)
  /\ \A i \in 1..Len(r.l) : r.l[i].id >= 0 /\ r.l[i].id < Len(x.sees) /\ (i > 1 => r.l[i].id > r.l[i - 1].id)
  /\ \A k \in 1..Len(x.sees) : Is3(x.sees[k], \E i \in 1..Len(r.l) : r.l[i].id = k - 1)
  /\ \A i \in 1..Len(r.l) : LET k == r.l[i].id + 1 IN
       VN(r.l[i].u, x.dirs[k], 12) /\ Near(r.l[i].d, x.dist[k], 7) /\ Abs(r.l[i].lat) <= 15709
Match(e, o) ==
  IF o = "none" THEN TRUE
  ELSE /\ Is3(rx'.vis, e.r.vis)
       /\ (IF Cone THEN Seen(e.r, rx') ELSE e.r.n = 0)
       /\ (Cone => e.r.vis = (e.r.n >= 4))
       /\ VN(e.r.p, last'.p, 1) /\ VN(e.r.v, last'.v, 1)
       /\ (Is(last'.g) => VN(e.r.g, last'.g[1], 1))
       /\ (rx'.utc > 0 => e.r.ym = 2020 * 12 + 4 /\ Near(e.r.utc, 10 * (86400 + 21600 + rx'.utc), 1))
=============================================================================
