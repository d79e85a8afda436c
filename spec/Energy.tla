------------------------------ MODULE Energy ------------------------------
(* Solar panels, battery and the charge controller ("PCU initial study"), run
   by the component clock.  Fixed point: power mW, voltage 0.1 mV, current mA,
   resistance mOhm, depth of discharge 1e-6 %, capacity 0.1 Ah.
   In conformance the state follows the observation after each tick, so an
   error cannot add up; each step is compared with what the previous state allows.
   Anchors: components/real/power/{solar_array_panel,battery,pcu_initial_study,csv_scenario_interface}.* *)
EXTENDS VTLib, TLC
VARIABLES cfg, k, env, sap, dod, vb, cur, bus, cons, out
vars == <<cfg, k, env, sap, dod, vb, cur, bus, cons, out>>
Init == cfg = [on |-> FALSE] /\ k = 0 /\ env = [n |-> 1] /\ sap = <<>> /\ dod = 0 /\ vb = 0 /\ cur = 0 /\ bus = 0 /\ cons = 0 /\ out = [ok |-> TRUE]
\* --- battery voltage from the discharge curve
Vol(c, d) == LET x == ((d \div 1000) * c.cap) \div 100           \* discharged charge per cell, 0.1 mAh
             IN c.ser * (10 * c.c0 + (c.c1 * x) \div 1000 + (c.c2 * (x \div 10) * (x \div 10)) \div 100000)
\* --- scenario: the last row at or before the query
Row(t) == IF \E i \in 1..Len(cfg.rows) : cfg.rows[i].t <= t
          THEN cfg.rows[CHOOSE i \in 1..Len(cfg.rows) : cfg.rows[i].t <= t /\ \A j \in 1..Len(cfg.rows) : cfg.rows[j].t <= t => cfg.rows[j].t <= cfg.rows[i].t]
          ELSE [t |-> 0, d |-> <<0, 0, 0>>, n |-> 1, flag |-> 0, p |-> 0]
Dot(a, b) == a[1] * b[1] + a[2] * b[2] + a[3] * b[3]
\* --- one run of a panel: full power * light * cosine, none from behind
Panel(s, time) ==
  LET r == Row(time)
      dir == IF cfg.scen THEN r.d ELSE env.s
      nrm == IF cfg.scen THEN r.n ELSE env.n
      light == IF cfg.scen THEN (IF r.flag = 1 THEN 4 ELSE 0) ELSE IF env.ecl THEN 0 ELSE 16 \div (env.d * env.d)   \* in 1/4
  IN Max2(0, (((s.k * light) \div 4) * Dot(s.nv, dir)) \div (s.nn * nrm))
\* --- battery
Drain(i, c) == 10 * TDiv(i * c.step * c.bpre * 250, 9 * c.cap * c.par)
\* --- charge control: the largest current within the constant-current limit, the constant-voltage limit and the power balance
Used(i, v) == (i * ((v + (cfg.res * i) \div 100) \div 10)) \div 1000
RECURSIVE Bis(_, _, _, _)
Bis(lo, hi, v, p) == IF hi - lo <= 1 THEN lo ELSE LET m == (lo + hi) \div 2 IN IF Used(m, v) <= p THEN Bis(m, hi, v, p) ELSE Bis(lo, m, v, p)
Limit(v) == Min2(cfg.cc, ((cfg.cv - v) * 100) \div cfg.res)
Charge(v, p) == LET lim == Limit(v)  lo == -((v * 50) \div cfg.res) IN
                IF lim <= lo THEN lim ELSE IF Used(lim, v) <= p THEN lim ELSE Bis(lo, lim, v, p)
Due(pre) == k % Max2(pre, 1) = 0
S0 == [sap |-> sap, dod |-> dod, vb |-> vb, cur |-> cur, bus |-> bus, cons |-> cons]
One(s, c) == CASE c < 10 -> IF Due(cfg.saps[c].pre) THEN [s EXCEPT !.sap[c] = Panel(cfg.saps[c], cfg.step * k)] ELSE s
               [] c = 10 -> IF Due(cfg.bpre) THEN LET d == s.dod - Drain(s.cur, cfg) IN [s EXCEPT !.dod = d, !.vb = Vol(cfg, d)] ELSE s
               [] c = 11 -> IF Due(cfg.ppre) THEN
                              LET p == IF cfg.scen THEN Row(cfg.step * k).p ELSE 5000
                                  i == Charge(s.vb, SumSeq(s.sap) - p)
                              IN [s EXCEPT !.cons = p, !.cur = i, !.bus = s.vb + TDiv(cfg.res * i, 100)] ELSE s
RECURSIVE All(_, _)
All(s, l) == IF l = <<>> THEN s ELSE All(One(s, l[1]), Tail(l))
Reset(e) == /\ cfg' = [on |-> TRUE] @@ [x \in (DOMAIN e \ {"op", "r"}) |-> e[x]]
            /\ k' = 0 /\ env' = [s |-> <<1, 0, 0>>, n |-> 1, d |-> 2, ecl |-> FALSE]
            /\ sap' = [i \in 1..Len(e.saps) |-> 0] /\ dod' = e.dod /\ vb' = Vol(e, e.dod) /\ cur' = 0 /\ bus' = 0 /\ cons' = 0
            /\ out' = [sap |-> sap', dod |-> dod', vb |-> vb', bus |-> 0, cons |-> 0]
Env(e) == /\ env' = [s |-> e.s, n |-> e.n, d |-> e.d, ecl |-> e.ecl] /\ UNCHANGED <<cfg, k, sap, dod, vb, cur, bus, cons>>
          /\ out' = [sap |-> sap, dod |-> dod, vb |-> vb, bus |-> bus, cons |-> cons]
Sane(r) == \A x \in {r.dod, r.vb, r.bus, r.cons} \cup SeqRange(r.sap) : Abs(x) < 1000000000
Anchor(e) == "r" \in DOMAIN e /\ Sane(e.r)
Tick(e) == LET s == All(S0, cfg.order) IN
           /\ k' = k + 1
           /\ cur' = s.cur
           /\ out' = [sap |-> s.sap, dod |-> s.dod, vb |-> s.vb, bus |-> s.bus, cons |-> s.cons]
           /\ sap' = (IF Anchor(e) THEN e.r.sap ELSE s.sap) /\ dod' = (IF Anchor(e) THEN e.r.dod ELSE s.dod)
           /\ vb' = (IF Anchor(e) THEN e.r.vb ELSE s.vb) /\ bus' = (IF Anchor(e) THEN e.r.bus ELSE s.bus) /\ cons' = s.cons
           /\ UNCHANGED <<cfg, env>>
Do(e) == \/ e.op = "reset" /\ Reset(e)
         \/ cfg.on /\ \/ e.op = "env" /\ Env(e)
                      \/ e.op = "tick" /\ Tick(e)
Match(e, o) ==
  LET r == e.r  c == IF e.op = "reset" THEN e ELSE cfg IN
  /\ Sane(r) /\ Len(r.sap) = Len(o.sap)
  /\ \A i \in 1..Len(o.sap) : Near(r.sap[i], o.sap[i], 3 + o.sap[i] \div 500)
  /\ Near(r.dod, o.dod, 200 + Abs(o.dod) \div 100000 + Drain(3 + (c.ser * 300) \div c.res, c))
  /\ Near(r.vb, o.vb, c.ser * (10 + Abs(c.c2)))
  /\ Near(r.bus, o.bus, 30 + c.ser * (10 + Abs(c.c2)) + c.res \div 20)
  /\ Near(r.cons, o.cons, 1)
=============================================================================
