----------------------------- MODULE Actuators -----------------------------
(* Reaction wheels and thrusters on the component clock.
   Fixed point: speed and acceleration 1e-5 rad/s(2), torque 1e-5 Nm, force 1e-5 N,
   commanded torque mNm, rotor inertia 1/8 kgm2, clock step 1/dd s.
   Anchors: components/real/aocs/{reaction_wheel,reaction_wheel_ode,reaction_wheel_jitter}.*,
            components/real/propulsion/simple_thruster.*, math_physics/control_utilities/first_order_lag.hpp *)
EXTENDS VTLib, TLC
VARIABLES dd, k, ws, ts, out
vars == <<dd, k, ws, ts, out>>
Init == dd = 0 /\ k = 0 /\ ws = <<>> /\ ts = <<>> /\ out = [ok |-> TRUE]
Rpm(r) == r * 10471 + (r * 976) \div 1000                 \* rpm -> 1e-5 rad/s  (2 pi / 60 * 1e5 = 10471.976)
Acc(t) == t * 800                                           \* mNm on 1/8 kgm2 -> 1e-5 rad/s2
\* number of runs a command waits: the dead time in whole runs, and one
Wait(c) == c.dead4 \div 4 + 1
Zeros(n) == [i \in 1..n |-> 0]
Lag(m, old, in) == TDiv(m * old + in, m + 1)                \* first-order lag with time constant m runs
Due(pre) == k % Max2(pre, 1) = 0
\* --- wheel
NewWheel(e) == [c |-> [x \in DOMAIN e \ {"op", "r"} |-> e[x]], buf |-> Zeros(Wait(e)), lag |-> 0, w |-> e.w0, lim |-> e.rmax, drv |-> e.drv, tgt |-> 0, on |-> TRUE, ran |-> FALSE, lo |-> e.w0, hi |-> e.w0, dv |-> 0, jf |-> 0, jw |-> 0]
Fric(s) == s.c.f0 + (s.c.f1 * Abs(s.w)) \div 100
\* the drive accelerates the rotor, but not outwards beyond the speed limit (the run in which it gets there may end anywhere between)
Drive(s) ==
  LET a == Lag(s.c.m, s.lag, s.buf[1])
      d == TDiv(a * s.c.pre, dd)
      L == Rpm(s.lim)
      out1 == s.w + d
      full == Abs(out1) <= L \/ Abs(out1) < Abs(s.w)
      none == (s.w > L + 5 /\ d > 0) \/ (s.w < -L - 5 /\ d < 0)
      edge == ~full /\ ~none
  IN [s EXCEPT !.lag = a, !.buf = Append(Tail(@), s.tgt), !.ran = TRUE,
               !.lo = IF none THEN s.w ELSE IF edge THEN Min2(s.w, out1) ELSE out1,
               !.hi = IF none THEN s.w ELSE IF edge THEN Max2(s.w, out1) ELSE out1,
               !.dv = IF none THEN 0 ELSE d,
               !.w = IF none THEN s.w ELSE out1]
\* without drive it coasts down, and stops below the stop limit; waiting commands are dropped
Coast(s) ==
  LET f == TDiv(Fric(s) * s.c.pre, dd)
      nw == IF Abs(s.w) < s.c.stop THEN 0 ELSE IF s.w > 0 THEN s.w - f ELSE s.w + f
  IN [s EXCEPT !.buf = Zeros(Len(@)), !.ran = TRUE, !.lo = nw, !.hi = nw, !.dv = nw - s.w, !.w = nw]
Off(s) == [s EXCEPT !.drv = FALSE, !.lo = s.w, !.hi = s.w, !.dv = 0]
Jit(s) == IF s.c.jc > 0 /\ Due(s.c.fp) THEN (IF s.on THEN [s EXCEPT !.jw = s.w] ELSE Off(s)) ELSE s
Wheel(s) == LET n == IF ~Due(s.c.pre) THEN s ELSE IF ~s.on THEN Off(s) ELSE IF s.drv THEN Drive(s) ELSE Coast(s) IN n
\* --- thruster: duty (1/1000) with the same delay, thrust along its direction, torque about the centre of mass
Ax(d) == [i \in 1..3 |-> IF i = Abs(d) THEN (IF d > 0 THEN 1 ELSE -1) ELSE 0]
Cross(a, b) == <<a[2] * b[3] - a[3] * b[2], a[3] * b[1] - a[1] * b[3], a[1] * b[2] - a[2] * b[1]>>
NewThr(e) == [c |-> [x \in DOMAIN e \ {"op", "r"} |-> e[x]], buf |-> Zeros(Wait(e)), lag |-> 0, duty |-> 0, on |-> TRUE, f |-> 0]
Thr(s) == IF ~Due(s.c.pre) THEN s ELSE IF ~s.on THEN [s EXCEPT !.f = 0]
          ELSE LET l == Lag(s.c.m, s.lag, s.buf[1] * 10000) IN [s EXCEPT !.lag = l, !.buf = Append(Tail(@), s.duty), !.f = ((l \div 1000) * s.c.mag) \div 100 + ((l % 1000) * s.c.mag) \div 100000]   \* duty 1e-7, mag mN -> 1e-5 N
\* --- what is seen
WOut(s) == [lo |-> s.lo, hi |-> s.hi, dv |-> s.dv, w |-> s.w, drv |-> s.drv, ran |-> s.ran, jw |-> s.jw]
TOut(s) == [f |-> [i \in 1..3 |-> s.f * Ax(s.c.dir)[i]], t |-> Cross([i \in 1..3 |-> s.c.pos[i] - s.c.cg[i]], [i \in 1..3 |-> s.f * Ax(s.c.dir)[i]])]
See == out' = [w |-> [i \in 1..Len(ws') |-> WOut(ws'[i])], t |-> [i \in 1..Len(ts') |-> TOut(ts'[i])]]
\* in conformance the speed follows the observation, so that rounding cannot add up
Anchor(e, i, s) == IF "r" \in DOMAIN e /\ "w" \in DOMAIN e.r /\ Len(e.r.w) >= i /\ OkNum(e.r.w[i].w)
                   THEN [s EXCEPT !.w = e.r.w[i].w, !.dv = IF Due(s.c.pre) THEN e.r.w[i].w - ws[i].w ELSE s.dv] ELSE s
Tick(e) == /\ k' = k + 1
           /\ ws' = [i \in 1..Len(ws) |-> Jit(Anchor(e, i, Wheel(ws[i])))]
           /\ ts' = [i \in 1..Len(ts) |-> Thr(ts[i])]
           /\ UNCHANGED dd /\ See
Clip(t, m) == IF Abs(t) < m THEN t ELSE IF t > 0 THEN m ELSE -m
SetW(i, s) == ws' = [ws EXCEPT ![i] = s] /\ UNCHANGED <<dd, k, ts>> /\ See
SetT(i, s) == ts' = [ts EXCEPT ![i] = s] /\ UNCHANGED <<dd, k, ws>> /\ See
Do(e) ==
  \/ e.op = "reset" /\ dd' = e.dd /\ k' = 0 /\ ws' = <<>> /\ ts' = <<>> /\ See
  \/ /\ dd > 0
     /\ \/ e.op = "wheel" /\ ws' = Append(ws, NewWheel(e)) /\ UNCHANGED <<dd, k, ts>> /\ See
        \/ e.op = "thr" /\ ts' = Append(ts, NewThr(e)) /\ UNCHANGED <<dd, k, ws>> /\ See
        \/ e.op = "tick" /\ Tick(e)
        \/ e.op = "wt" /\ e.i <= Len(ws) /\ SetW(e.i, [ws[e.i] EXCEPT !.tgt = Acc(Clip(IF e.body THEN -e.T ELSE e.T, ws[e.i].c.tmax))])
        \/ e.op = "wlim" /\ e.i <= Len(ws) /\ SetW(e.i, [ws[e.i] EXCEPT !.lim = Min2(e.v, ws[e.i].c.rmax)])
        \/ e.op = "wdrv" /\ e.i <= Len(ws) /\ SetW(e.i, [ws[e.i] EXCEPT !.drv = e.on])
        \/ e.op = "wpow" /\ e.i <= Len(ws) /\ SetW(e.i, [ws[e.i] EXCEPT !.on = e.on])
        \/ e.op = "duty" /\ e.i <= Len(ts) /\ SetT(e.i, [ts[e.i] EXCEPT !.duty = e.v])
        \/ e.op = "tpow" /\ e.i <= Len(ts) /\ SetT(e.i, [ts[e.i] EXCEPT !.on = e.on])
\* jitter force of a single harmonic: coefficient (1e-6) times the square of the speed, 1e-5 N
JF(jc, w) == (jc * (Abs(w) \div 1000) * (Abs(w) \div 1000)) \div 100000
JTol(jc, w) == 5 + JF(jc, w) \div 40 + (jc * (Abs(w) \div 1000)) \div 10000
MatchW(c, r, o) ==
  LET tol == 4 + c.m
  IN /\ OkNum(r.w) /\ r.w >= o.lo - tol /\ r.w <= o.hi + tol
     /\ r.drv = o.drv
     \* the torque on the body is opposite to the rate of change of the wheel's momentum
     /\ \A i \in 1..3 : /\ OkNum(r.tq[i]) /\ OkNum(r.h[i])
                        /\ (o.ran => Near(r.h[i], TDiv(r.w, 8) * Ax(c.axis)[i], 3))
                        /\ Near(r.tq[i], TDiv(-o.dv * dd, c.pre * 8) * Ax(c.axis)[i], 4 + Abs(r.tq[Abs(c.axis)]) \div 100000)
     \* each wheel shakes with its own imbalance at its own speed, across its own axis
     /\ (c.jc > 0 => /\ OkNum(r.jf) /\ Near(r.jf, JF(c.jc, o.jw), JTol(c.jc, o.jw))
                     /\ OkNum(r.jt) /\ Near(r.jt, JF(c.jc, o.jw) \div 2, JTol(c.jc, o.jw)) /\ OkNum(r.jx) /\ Abs(r.jx) <= 3)
Match(e, o) ==
  LET r == e.r IN
  /\ Len(r.w) = Len(o.w) /\ Len(r.t) = Len(o.t)
  /\ \A i \in 1..Len(o.w) : MatchW(IF i <= Len(ws) THEN ws[i].c ELSE e, r.w[i], o.w[i])
  /\ \A i \in 1..Len(o.t) : \A j \in 1..3 : /\ OkNum(r.t[i].f[j]) /\ OkNum(r.t[i].t[j])
                                            /\ Near(r.t[i].f[j], o.t[i].f[j], 3 + Abs(o.t[i].f[j]) \div 5000)
                                            /\ Near(r.t[i].t[j], o.t[i].t[j], 20 + Abs(o.t[i].t[j]) \div 5000)
=============================================================================
