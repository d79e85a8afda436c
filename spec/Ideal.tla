-------------------------------- MODULE Ideal ---------------------------------
(* Ideal components: a force and a torque generator which give what is ordered (plus the error asked for), and observers of
   orbit, attitude and angular velocity which see the truth (plus the error asked for).
   Anchors: components/ideal/{force_generator,torque_generator,orbit_observer,attitude_observer,angular_velocity_observer}.cpp *)
EXTENDS VTGeo, TLC
VARIABLES cfg, pose, F, T, out
vars == <<cfg, pose, F, T, out>>
Pose0 == [q |-> Id, l |-> << <<1, 0, 0>>, <<0, 1, 0>>, <<0, 0, 1>> >>, n |-> 1, x |-> 7000, vr |-> 0, vt |-> 7000, w |-> Z3]
Over(v, d) == [i \in 1..3 |-> RDiv(v[i], d)]
\* from inertial to body, to the orbit's frame, and back
ToB(v) == Over(App(Rot(pose.q), v), N2(pose.q))
FromB(p, v) == Over(App(Trp(Rot(p.q)), v), N2(p.q))
ToL(p, v) == Over(App(p.l, v), p.n)
FromL(v) == Over(App(Trp(pose.l), v), pose.n)
Ten(v) == [i \in 1..3 |-> 10000 * v[i]]
Close(o, e, tol) == \A i \in 1..3 : OkNum(o[i]) /\ Near(o[i], e[i], tol)
Same4(o, p) == LET e == [i \in 1..4 |-> RDiv(10000 * p[i], Nrm(p))] IN (\A i \in 1..4 : Near(o[i], e[i], 2)) \/ (\A i \in 1..4 : Near(o[i], -e[i], 2))
\* twice the half angle between two attitudes (scalar part of one times the conjugate of the other, 1e-4) is within a number of milli-degrees
ByAngle(o, p, lim) == LET n == Nrm(p) d == Abs(o[1] * RDiv(10000 * p[1], n) + o[2] * RDiv(10000 * p[2], n) + o[3] * RDiv(10000 * p[3], n) + o[4] * RDiv(10000 * p[4], n)) IN RDiv(d, 1000) >= CosM(Min2(lim, 180000) \div 2) - 60
\* the range of a sensor: in range as it is, then held, then nothing (1e-5 rad/s)
Clip(x) == LET c == 100 * cfg.rc z == IF cfg.rc > cfg.rz THEN 200 * cfg.rc ELSE 100 * cfg.rz IN IF Abs(x) >= z THEN 0 ELSE IF x >= c THEN c ELSE IF x <= -c THEN -c ELSE x
\* the position on each axis may be off by six times its standard deviation (one of RTN: of all of them)
Tolp(i, a) == IF cfg.fr = "RTN" THEN 6 * (cfg.ns[a] + cfg.ns[a + 1] + cfg.ns[a + 2]) ELSE 6 * cfg.ns[a + i - 1]
Init == cfg = [ini |-> FALSE] /\ pose = Pose0 /\ F = Z3 /\ T = Z3 /\ out = [k |-> "none"]
Do(e) ==
  \/ e.op = "reset" /\ cfg' = e /\ pose' = Pose0 /\ F' = Z3 /\ T' = Z3 /\ out' = [k |-> "none"]
  \/ /\ e.op = "pose" /\ pose' = [q |-> e.q, l |-> <<e.ra, e.rb, e.rc>>, n |-> Nrm(e.ra), x |-> e.x, vr |-> e.vr, vt |-> e.vt, w |-> e.w]
     /\ UNCHANGED <<cfg, F, T>> /\ out' = [k |-> "none"]
  \* an order is turned into the body frame when it is given (1e-4)
  \/ e.op = "force" /\ F' = (IF e.f = "b" THEN Ten(e.v) ELSE IF e.f = "i" THEN ToB(Ten(e.v)) ELSE ToB(FromL(Ten(e.v)))) /\ UNCHANGED <<cfg, pose, T>> /\ out' = [k |-> "none"]
  \/ e.op = "torque" /\ T' = Ten(e.v) /\ UNCHANGED <<cfg, pose, F>> /\ out' = [k |-> "none"]
  \/ e.op = "run" /\ UNCHANGED <<cfg, pose, F, T>> /\ out' = [k |-> "run"]
  \/ e.op = "off" /\ UNCHANGED <<cfg, pose, F, T>> /\ out' = [k |-> "off"]
  \/ e.op = "see" /\ UNCHANGED <<cfg, pose, F, T>> /\ out' = [k |-> "see"]
  \/ e.op = "stats" /\ F' = (IF e.of = "force" THEN Z3 ELSE F) /\ T' = (IF e.of = "torque" THEN Z3 ELSE T) /\ UNCHANGED <<cfg, pose>> /\ out' = [k |-> e.of]
  \/ e.op = "two" /\ UNCHANGED <<cfg, pose, F, T>> /\ out' = [k |-> "two"]
\* what comes out of an order: exactly that without errors, nothing without an order, otherwise as long as the order give or take its error, and about in its direction
Len3(v) == ISqrt(N2([i \in 1..3 |-> TDiv(v[i], 100)]))
Given(o, v, ms, ds) ==
  IF v = Z3 THEN o = Z3
  ELSE /\ (ms = 0 /\ ds = 0) => Close(o, v, 4)
       /\ \A i \in 1..3 : OkNum(o[i]) /\ Abs(o[i]) < 4000000
       /\ ds = 0 => LET n == Len3(v) IN \A i, j \in 1..3 : Abs(TDiv(o[i], 100) * TDiv(v[j], 100) - TDiv(o[j], 100) * TDiv(v[i], 100)) <= 4 * n + 4 * Len3(o)
       /\ Abs(Len3(o) - Len3(v)) <= TDiv(6 * ms, 10) + 6
\* mean, mean square, product of neighbours of n samples, 1e-3: within six standard deviations of what they should be
Law(s, var, wid, n) == LET t == RDiv(6000, ISqrt(n)) IN Abs(s[1]) <= (t * ISqrt(var * 1000)) \div 1000 + 3 /\ Abs(s[2] - var) <= (t * wid) \div 1000 + 5 /\ Abs(s[3]) <= (t * var) \div 1000 + 5
Match(e, o) ==
  CASE o.k = "none" -> TRUE
    [] o.k = "off" -> e.r.b = Z3 /\ e.r.i = Z3 /\ e.r.l = Z3 /\ e.r.t = Z3 /\ e.r.log
    [] o.k = "run" -> /\ Given(e.r.b, F, cfg.ms, cfg.ds) /\ Given(e.r.t, T, cfg.mt, cfg.dt) /\ e.r.log
                      \* the same force in all frames, the attitude and orbit being those of now
                      /\ Close(e.r.i, FromB(pose, e.r.b), 3) /\ Close(e.r.l, ToL(pose, FromB(pose, e.r.b)), 4)
                      /\ Close(e.r.of, Over(F, 10), 3) /\ Close(e.r.ot, Over(T, 10), 1)
    [] o.k = "see" -> /\ \A i \in 1..3 : OkNum(e.r.p[i]) /\ OkNum(e.r.v[i])
                      /\ \A i \in 1..3 : Near(e.r.p[i], RDiv(1000 * pose.x * pose.l[1][i], pose.n), 1 + Tolp(i, 1))
                      /\ \A i \in 1..3 : Near(e.r.v[i], RDiv(1000 * (pose.vr * pose.l[1][i] + pose.vt * pose.l[2][i]), pose.n), 1 + Tolp(i, 4))
                      /\ (\A i \in 1..4 : OkNum(e.r.q[i])) /\ (IF cfg.as = 0 THEN Same4(e.r.q, pose.q) ELSE ByAngle(e.r.q, pose.q, 6 * cfg.as))
                      /\ \A i \in 1..3 : Near(e.r.w[i], Clip(100 * (pose.w[i] + cfg.bias[i])), 1)
                      /\ e.r.log
    \* errors: of the magnitude, of the direction (each of two axes has half of its variance; not tied to each other), of each axis of position and velocity, of each axis of attitude (a third)
    [] o.k \in {"force", "torque"} -> Law(e.r.s[1], 1000, 1415, e.n) /\ Law(e.r.s[2], 500, 936, e.n) /\ Law(e.r.s[3], 500, 936, e.n) /\ Abs(e.r.s[4][1]) <= RDiv(6000, ISqrt(e.n))
    [] o.k = "orbit" -> \A i \in 1..6 : Law(e.r.s[i], 1000, 1415, e.n)
    [] o.k = "att" -> \A i \in 1..3 : Law(e.r.s[i], 333, 700, e.n)
    [] OTHER -> (cfg.ms > 0 => ~e.r.f) /\ (cfg.mt > 0 => ~e.r.t) /\ (cfg.ns[1] > 0 => ~e.r.o) /\ (cfg.as > 0 => ~e.r.a)
=============================================================================
