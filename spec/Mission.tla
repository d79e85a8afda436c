------------------------------ MODULE Mission ------------------------------
(* A whole simulation: global clock, run loop, log table, and per spacecraft
   the step local environment -> disturbances -> components -> forces ->
   dynamics.  One step of the specification is one simulation step.
   Times in 1/8 s.  Each spacecraft carries a probe component (prescaler
   cfg.pre) whose force and torque follow a script indexed by the tick at which
   it last ran, plus a term counting the component-interference calls.
   Anchors: simulation/case/simulation_case.cpp, simulation/spacecraft/spacecraft.cpp,
   dynamics/dynamics.cpp, disturbances/disturbances.cpp, environment/*, logger/logger.cpp *)
EXTENDS VTLib, TLC
VARIABLES cfg, k, ticks, sc, rows, out
vars == <<cfg, k, ticks, sc, rows, out>>
NoCfg == [on |-> FALSE]
Init == cfg = NoCfg /\ k = 0 /\ ticks = 0 /\ sc = <<>> /\ rows = <<>> /\ out = [ok |-> TRUE]

NSteps(iv) == (iv + cfg.step - 1) \div cfg.step
Due(iv, j) == LET n == NSteps(iv) IN n = 1 \/ (j + 1) % n = 0     \* C02
LogDue(j) == j % NSteps(cfg.log) = 0
Total == (cfg.end \div cfg.step) + 1                               \* the run ends in the first step past the duration

Fresh(n) == [i \in 1..n |-> [idx |-> -1, ic |-> 0, runs |-> 0, v |-> 0, p |-> 0, w |-> 0, tA |-> 0, tO |-> 0]]
Reset(e) == LET c == [e EXCEPT !.op = "cfg"] IN
            /\ cfg' = [on |-> TRUE] @@ [x \in (DOMAIN e \ {"op", "r"}) |-> e[x]]
            /\ k' = 0 /\ ticks' = 0 /\ sc' = Fresh(Len(e.pre))
            /\ rows' = << <<0>> \o [i \in 1..Len(e.pre) |-> 0] >>
            /\ out' = [steps |-> (e.end \div e.step) + 1]

At(s, idx) == IF idx < 0 \/ s = <<>> THEN 0 ELSE s[(idx % Len(s)) + 1]
(* one spacecraft in step j: i its number, tick whether components run, tk the tick index *)
ScStep(i, s, j, el, obs) ==
  LET tick == Due(cfg.comp, j)
      main == tick /\ ticks % Max2(cfg.pre[i], 1) = 0
      idx == IF main THEN ticks ELSE s.idx
      ic == s.ic + 1
      F == At(cfg.f[i], idx) + ic
      T == At(cfg.t[i], idx) + 2 * ic
      att == Due(cfg.att, j)  orb == Due(cfg.orb, j)
      dA == el - s.tA  dO == el - s.tO
      ev == (IF main THEN <<"m">> ELSE <<>>) \o <<"i", "g">>
  IN IF ~cfg.dist
     THEN [s |-> [idx |-> idx, ic |-> ic, runs |-> s.runs + (IF main THEN 1 ELSE 0),
                  v |-> IF orb THEN s.v + (F * 128 * dO) \div cfg.mass ELSE s.v,
                  p |-> IF orb THEN s.p + 256 * dO + (s.v * dO) \div 8 + (F * 8 * dO * dO) \div cfg.mass ELSE s.p,
                  w |-> IF att THEN s.w + T * 128 * dA ELSE s.w,
                  tA |-> IF att THEN el ELSE s.tA, tO |-> IF orb THEN el ELSE s.tO],
           ev |-> ev, chg |-> <<>>]
     ELSE \* disturbances on: their totals are taken as observed, their effect and their update instants are checked
          [s |-> [idx |-> idx, ic |-> ic, runs |-> s.runs + (IF main THEN 1 ELSE 0),
                  v |-> IF orb THEN s.v + ((obs.da + obs.df \div cfg.mass) * dO) \div 8 ELSE s.v,
                  p |-> 0,
                  w |-> IF att THEN s.w + ((obs.dt + (T * 1000) \div 1024) * dA) \div 8 ELSE s.w,
                  tA |-> IF att THEN el ELSE s.tA, tO |-> IF orb THEN el ELSE s.tO],
           ev |-> ev,
           chg |-> <<att \/ orb, orb, att, orb, att \/ orb>>]
Sane(x) == \A y \in {x.da, x.df, x.dt, x.vx, x.w} : Abs(y) < 20000000   \* no NaN, no overflow
NoObs == [da |-> 0, df |-> 0, dt |-> 0]
Step(e) ==
  LET j == k + 1  el == j * cfg.step
      R == [i \in 1..Len(sc) |-> ScStep(i, sc[i], j, el, IF "r" \in DOMAIN e /\ cfg.dist /\ Sane(e.r.sc[i]) THEN e.r.sc[i] ELSE NoObs)]
  IN /\ k < Total
     /\ k' = j
     /\ ticks' = IF Due(cfg.comp, j) THEN ticks + 1 ELSE ticks
     \* in disturbance mode the integrated speeds follow the observation (checked against the prediction in Match)
     /\ sc' = [i \in 1..Len(sc) |-> IF cfg.dist /\ "r" \in DOMAIN e /\ Sane(e.r.sc[i]) THEN [R[i].s EXCEPT !.v = e.r.sc[i].vx, !.w = e.r.sc[i].w] ELSE R[i].s]
     /\ rows' = IF LogDue(j) /\ el <= cfg.end THEN Append(rows, <<el>> \o [i \in 1..Len(sc) |-> R[i].s.runs]) ELSE rows
     /\ out' = [el |-> el, sc |-> [i \in 1..Len(sc) |-> [s |-> R[i].s, ev |-> R[i].ev, chg |-> R[i].chg]]]
     /\ UNCHANGED cfg
(* the log file left behind *)
End(e) == /\ k = Total
          /\ out' = [rows |-> rows, rect |-> TRUE, n |-> Len(rows), files |-> 1, inis |-> 4 + Len(sc), cols |-> Len(sc)]
          /\ UNCHANGED <<cfg, k, ticks, sc, rows>>
Do(e) == \/ e.op = "reset" /\ Reset(e)
         \/ cfg.on /\ \/ e.op = "step" /\ Step(e)
                      \/ e.op = "end" /\ End(e)
Tag(ev, i) == [x \in 1..Len(ev) |-> ev[x] \o ToString(i - 1)]
ScOk(r, o, i) ==
  /\ r.ev = Tag(o.ev, i)
  /\ IF cfg.dist
     THEN /\ Sane(r)
          /\ r.chg = o.chg
          /\ Near(r.vx, o.s.v, 2 + cfg.step) /\ Near(r.w, o.s.w, 4 + cfg.step + Abs(o.s.w) \div 2000)
     ELSE r.p = o.s.p /\ r.v = o.s.v /\ r.w = o.s.w /\ r.xy = 0
Match(e, o) == IF e.op = "step" THEN e.r.el = o.el /\ Len(e.r.sc) = Len(o.sc) /\ \A i \in 1..Len(o.sc) : ScOk(e.r.sc[i], o.sc[i], i)
               ELSE e.r = o
=============================================================================
