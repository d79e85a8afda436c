------------------------------ MODULE Thermal ------------------------------
(* Thermal network of a spacecraft: heaters with hysteresis, periodic heat-load
   tables, nodes exchanging heat.  Anchors: src/dynamics/thermal/*, environment/local/earth_{albedo,infrared}.*
   Temperatures in mK, power in mW, energy in mJ, time in s (half seconds where named t2), capacities in J/K,
   conductances in 1/10 W/K, radiative couplings in 1/100 m2, areas in 1/100 m2, alpha and epsilon in 1/10.     *)
EXTENDS VTLib, TLC
VARIABLES th, env, hc, hl, out
vars == <<th, env, hc, hl, out>>
\* ---- heater and its controller (temperatures in 1/8 degC)
FixUp(lo, up) == IF up < lo THEN lo + 80 ELSE up
Control(on, T, lo, up) == IF on THEN ~(T > up) ELSE T < lo
\* ---- periodic heat-load table: linear between the given times, repeating after the last of them
Seg(ts, r2) == CHOOSE k \in 1..(Len(ts) - 1) : 2 * ts[k] <= r2 /\ r2 <= 2 * ts[k + 1] /\ \A j \in 1..(k - 1) : r2 > 2 * ts[j + 1]
Load(ts, vs, t2) == LET r2 == t2 % (2 * ts[Len(ts)])  k == Seg(ts, r2)
                    IN vs[k] + ((r2 - 2 * ts[k]) * (vs[k + 1] - vs[k])) \div (2 * (ts[k + 1] - ts[k]))
\* ---- heat from outside.  Normals 1..6 are +x, -x, +y, -y, +z, -z; 7 to 10 are (1,1,1) and its opposite, in turn.  The Earth is along +x ("ax") or (1,1,1) ("diag"), at 1.1 radii;
\* the Sun opposite to it ("anti"), at a right angle to it ("perp": +y, or (1,-1,0)), or hidden behind it ("hid").
CosE(ek, n) == IF n > 6 THEN (IF ek = "ax" THEN 577 ELSE 1000) * (IF n % 2 = 1 THEN 1 ELSE -1) ELSE IF ek = "ax" THEN (IF n = 1 THEN 1000 ELSE IF n = 2 THEN -1000 ELSE 0) ELSE IF n % 2 = 1 THEN 577 ELSE -577
CosS(ek, sk, n) == CASE sk = "anti" -> -CosE(ek, n) [] sk = "hid" -> CosE(ek, n)
                     [] OTHER -> IF n > 6 THEN (IF ek # "ax" THEN 0 ELSE IF n % 2 = 1 THEN 577 ELSE -577)
                                 ELSE IF ek = "ax" THEN (IF n = 3 THEN 1000 ELSE IF n = 4 THEN -1000 ELSE 0)
                                 ELSE IF n \in {1, 4} THEN 707 ELSE IF n \in {2, 3} THEN -707 ELSE 0
\* view factor of a sphere at 1.1 radii from a plate (numerical integration of its definition), in 1/1000000
View6(c) == CASE c = 1000 -> 826446 [] c = 0 -> 242670 [] c = -1000 -> 0 [] c = 577 -> 525137 [] OTHER -> 47988
Fr(x) == IF x > 10 \/ x < 0 THEN 0 ELSE x      \* absorptivity and emissivity outside 0..1 count as 0
Mil(x, m) == ((x * (m \div 1000)) \div 1000) + (((x \div 1000) * (m % 1000)) \div 1000)
Solar(nd, v) == IF v.sk = "hid" \/ CosS(v.ek, v.sk, nd.nv) <= 0 THEN 0 ELSE (((1366 * nd.area * Fr(nd.al)) \div 10) * CosS(v.ek, v.sk, nd.nv)) \div 100
Albedo(nd, v) == IF v.sk = "hid" THEN 0
                 ELSE LET f == Mil((1366 * v.af * nd.area * Fr(nd.al)) \div 10, View6(CosE(v.ek, nd.nv)))
                      IN IF v.sk = "anti" THEN f ELSE ((f \div 10) * 3536) \div 1000
Infra(nd, v) == Mil((IF v.sk = "hid" THEN v.cold ELSE v.hot) * nd.area * Fr(nd.ep), View6(CosE(v.ek, nd.nv)))
\* ---- the network
Flow(s, T, i, j) == (s.cij[i][j] * (T[j] - T[i])) \div 10
X4(tt) == LET t == Min2(tt, 500000)  a == ((t \div 100) * (t \div 100)) \div 1000 IN a * a
RadFlow(s, T, i, j) == (((((X4(T[j]) - X4(T[i])) \div 1000) * 567) \div 100) * s.rij[i][j]) \div 100
RadScale(s, T, i, j) == (((((X4(T[j]) + X4(T[i])) \div 1000) * 567) \div 100) * s.rij[i][j]) \div 100
Diff(s, i) == s.nodes[i].type = 0
HeaterP(s, i) == IF s.nodes[i].heater > 0 /\ s.hon[s.nodes[i].heater] THEN s.heaters[s.nodes[i].heater].p ELSE 0
External(s, v, i) == (IF s.solar THEN Solar(s.nodes[i], v) + Albedo(s.nodes[i], v) ELSE 0) + Infra(s.nodes[i], v)
RECURSIVE Sum(_, _)
Sum(f, n) == IF n = 0 THEN 0 ELSE f[n] + Sum(f, n - 1)
Num(s) == Len(s.nodes)
\* energy into node i during h seconds from t at temperatures T; and how uncertain that is (integration order, rounding)
Energy(s, v, T, t, h, i) ==
  LET n == Num(s)
      fl == Sum([j \in 1..n |-> Flow(s, T, i, j) + RadFlow(s, T, i, j)], n)
      q(t2) == Load(s.times, s.loads[i], t2)
  IN h * (fl + External(s, v, i) + HeaterP(s, i)) + (h * (q(2 * t) + 4 * q(2 * t + h) + q(2 * t + 2 * h))) \div 6
Slack(s, v, T, t, h, i) ==
  LET n == Num(s) IN h * (Sum([j \in 1..n |-> Abs(Flow(s, T, i, j)) \div 8 + Abs(RadFlow(s, T, i, j)) \div 8 + RadScale(s, T, i, j) \div 1000], n) + External(s, v, i) \div 100 + 6)
RECURSIVE Steps(_, _, _, _, _, _)
Steps(s, v, T, tol, t, end) ==
  LET h == IF end - t > s.step THEN s.step ELSE end - t
      T2 == TLCEval([i \in 1..Num(s) |-> IF Diff(s, i) THEN T[i] + Energy(s, v, T, t, h, i) \div s.nodes[i].cap ELSE T[i]])
      k2 == TLCEval([i \in 1..Num(s) |-> IF Diff(s, i) THEN tol[i] + Slack(s, v, T, t, h, i) \div s.nodes[i].cap + 2 ELSE 0])
  IN IF t + h >= end THEN [T |-> T2, tol |-> k2] ELSE Steps(s, v, T2, k2, t + h, end)

Init == th = <<>> /\ env = <<>> /\ hc = <<>> /\ hl = <<>> /\ out = [ok |-> TRUE]
Reset(e) == th' = <<>> /\ env' = [ek |-> "ax", sk |-> "anti", af |-> 3, hot |-> 240, cold |-> 180] /\ hc' = <<>> /\ hl' = <<>> /\ out' = [ok |-> TRUE]
NewHc(e) == hc' = <<[lo |-> e.lo, up |-> FixUp(e.lo, e.up), p |-> Max2(0, e.p), on |-> FALSE]>> /\ out' = [on |-> FALSE, p |-> 0, lo |-> e.lo, up |-> FixUp(e.lo, e.up)] /\ UNCHANGED <<th, env, hl>>
\* a new limit is taken as it is
SetHc(e) == LET h == IF e.lower THEN [hc[1] EXCEPT !.lo = e.v] ELSE [hc[1] EXCEPT !.up = e.v]
            IN hc' = <<h>> /\ out' = [on |-> h.on, p |-> IF h.on THEN h.p ELSE 0, lo |-> h.lo, up |-> h.up] /\ UNCHANGED <<th, env, hl>>
Ctl(e) == LET h == [hc[1] EXCEPT !.on = Control(hc[1].on, e.T, hc[1].lo, hc[1].up)]
          IN hc' = <<h>> /\ out' = [on |-> h.on, p |-> IF h.on THEN h.p ELSE 0, lo |-> h.lo, up |-> h.up] /\ UNCHANGED <<th, env, hl>>
NewHl(e) == hl' = <<[ts |-> e.ts, vs |-> e.vs]>> /\ out' = [ok |-> TRUE] /\ UNCHANGED <<th, env, hc>>
AskHl(e) == out' = [v |-> Load(hl[1].ts, hl[1].vs, e.t2), tot |-> Load(hl[1].ts, hl[1].vs, e.t2) + e.so + e.al + e.ir + e.he] /\ UNCHANGED <<th, env, hc, hl>>
Net(e) == /\ th' = <<[nodes |-> e.nodes, heaters |-> [i \in 1..Len(e.heaters) |-> [e.heaters[i] EXCEPT !.up = FixUp(e.heaters[i].lo, e.heaters[i].up)]],
                     times |-> e.times, loads |-> e.loads, cij |-> e.cij, rij |-> e.rij, solar |-> e.solar, step |-> e.step, t |-> 0,
                     T |-> [i \in 1..Len(e.nodes) |-> e.nodes[i].t], hon |-> [i \in 1..Len(e.heaters) |-> FALSE]]>>
          /\ out' = [ok |-> TRUE] /\ UNCHANGED <<env, hc, hl>>
Env(e) == env' = [ek |-> e.ek, sk |-> e.sk, af |-> e.af, hot |-> e.hot, cold |-> e.cold] /\ out' = [ok |-> TRUE] /\ UNCHANGED <<th, hc, hl>>
\* propagation to e.t; heaters are switched at the end, by the temperatures reached (limits in degC: 273.15 K)
Prop(e) ==
  LET s == th[1]
      n == Num(s)
      z == TLCEval(Steps(s, env, s.T, [i \in 1..n |-> 0], s.t, e.t))
      obs == "r" \in DOMAIN e
      T2 == IF obs /\ Len(e.r.T) = n THEN e.r.T ELSE z.T
      \* the node each heater is on
      sw(k) == IF \E i \in 1..n : s.nodes[i].heater = k
               THEN LET i == CHOOSE x \in 1..n : s.nodes[x].heater = k
                        c == T2[i] - 273150
                        lim == IF s.hon[k] THEN s.heaters[k].up * 125 ELSE s.heaters[k].lo * 125
                    IN IF obs /\ Len(e.r.hp) = n /\ Abs(c - lim) <= 2 THEN e.r.hp[i] > 0 ELSE Control(s.hon[k], c, s.heaters[k].lo * 125, s.heaters[k].up * 125)
               ELSE s.hon[k]
      hon2 == [k \in 1..Len(s.heaters) |-> sw(k)]
      s2 == [s EXCEPT !.T = T2, !.t = e.t, !.hon = hon2]
      dn == SelectSeq([i \in 1..n |-> i], LAMBDA i : s.nodes[i].type # 1)
  IN /\ th' = <<s2>>
     /\ out' = [T |-> z.T, tol |-> z.tol, hp |-> [i \in 1..n |-> HeaterP(s2, i)],
                lt |-> [k \in 1..Len(dn) |-> T2[dn[k]] - 273150],
                so |-> [k \in 1..Len(dn) |-> IF Diff(s, dn[k]) /\ s.solar THEN Solar(s.nodes[dn[k]], env) ELSE 0],
                al |-> [k \in 1..Len(dn) |-> IF Diff(s, dn[k]) /\ s.solar THEN Albedo(s.nodes[dn[k]], env) ELSE 0],
                ir |-> [k \in 1..Len(dn) |-> IF Diff(s, dn[k]) THEN Infra(s.nodes[dn[k]], env) ELSE 0],
                he |-> [k \in 1..Len(dn) |-> IF Diff(s, dn[k]) THEN External(s, env, dn[k]) + HeaterP(s, dn[k]) + Load(s.times, s.loads[dn[k]], 2 * e.t) ELSE 0]]
     /\ UNCHANGED <<env, hc, hl>>
Do(e) == \/ e.op = "reset" /\ Reset(e)
         \/ env # <<>> /\ \/ e.op = "hc" /\ NewHc(e)
                          \/ hc # <<>> /\ e.op = "hset" /\ SetHc(e)
                          \/ hc # <<>> /\ e.op = "hctl" /\ Ctl(e)
                          \/ e.op = "hl" /\ NewHl(e)
                          \/ hl # <<>> /\ e.op = "hq" /\ AskHl(e)
                          \/ e.op = "net" /\ Net(e)
                          \/ e.op = "env" /\ Env(e)
                          \/ th # <<>> /\ e.op = "prop" /\ Prop(e)
NearAll(a, b, pct, c) == Len(a) = Len(b) /\ \A i \in 1..Len(a) : OkNum(a[i]) /\ Abs(a[i] - b[i]) <= Abs(b[i]) \div pct + c
Match(e, o) ==
  CASE e.op = "hq" -> NearAll(<<e.r.v, e.r.tot>>, <<o.v, o.tot>>, 100000, 1)
    [] e.op = "prop" -> /\ Len(e.r.T) = Len(o.T) /\ \A i \in 1..Len(o.T) : OkNum(e.r.T[i]) /\ Abs(e.r.T[i] - o.T[i]) <= o.tol[i]
                        /\ NearAll(e.r.hp, o.hp, 100000, 1) /\ NearAll(e.r.lt, o.lt, 100000, 2)
                        /\ NearAll(e.r.so, o.so, 400, 3) /\ NearAll(e.r.al, o.al, 200, 12) /\ NearAll(e.r.ir, o.ir, 200, 12) /\ Len(e.r.he) = Len(o.he) /\ \A i \in 1..Len(o.he) : OkNum(e.r.he[i]) /\ Abs(e.r.he[i] - o.he[i]) <= 12 + (o.so[i] + o.al[i] + o.ir[i]) \div 150
    [] OTHER -> e.r = o
=============================================================================
