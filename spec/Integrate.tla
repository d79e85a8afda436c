------------------------------ MODULE Integrate -------------------------------
(* The numerical integrators on problems whose solutions are known exactly, step by step: polynomials and chains of
   integrators (which a method of that order integrates exactly), and 1/(c-t), its square and 1/(c-t^2) (up to the error of the
   order).  Unit of time: 1/20.  Values in 1e-6 (polynomials) and 1e-8.
   Anchors: math_physics/numerical_integration/*.hpp, math_physics/math/ordinary_differential_equation*.hpp, control_utilities/first_order_lag.hpp *)
EXTENDS VTGeo, TLC
VARIABLES p, T, H, last, tol, y, lag, out
vars == <<p, T, H, last, tol, y, lag, out>>
\* the polynomial at time t
Poly(c, t) == c[1] * t * 50000 + RDiv(c[2] * t * t * 2500, 2) + RDiv(c[3] * t * t * t * 125, 3) + RDiv(c[4] * t * t * t * t * 25, 16) + RDiv(c[5] * t * t * t * t * t, 16)
\* j-th link of the chain after a time d
At(ch, i) == IF i > 6 THEN 0 ELSE ch[i]
Link(ch, j, d) == 1000000 * ch[j] + At(ch, j + 1) * d * 50000 + At(ch, j + 2) * d * d * 1250 + RDiv(At(ch, j + 3) * d * d * d * 125, 6) + RDiv(At(ch, j + 4) * d * d * d * d * 25, 96) + RDiv(At(ch, j + 5) * d * d * d * d * d, 384)
Rec(d) == RDiv(2000000000, d)
Rec1(C, t) == Rec(C - t)
Rec2(C, t) == RDiv(Rec(C - t) * 20, C - t)
Rec3(C, t) == LET d == C - t * t IN 20 * (2000000000 \div d) + RDiv(20 * (2000000000 % d), d)
High == p.m \in {"rkf", "dp5"}
\* error of one step of a width (1e-8)
Err(h) == IF High THEN CASE h = 1 -> 4 [] h = 2 -> 30 [] OTHER -> 900 ELSE CASE h = 1 -> 8 [] h = 2 -> 80 [] OTHER -> 2500
Mid(h) == CASE h = 2 -> 150 [] OTHER -> 5000
Is(P, x, t, d) == /\ \A i \in 1..10 : OkNum(x[i])
               /\ Near(x[1], Poly(P.pc, t), 6) /\ \A j \in 1..6 : Near(x[1 + j], Link(P.ch, j, t - P.T), 6)
               /\ Near(x[8], Rec1(P.C, t), 3 + d) /\ Near(x[9], Rec2(P.C, t), 3 + d) /\ Near(x[10], Rec3(P.C2, t), 3 + d)
None == [m |-> "none"]
Init == p = None /\ T = 0 /\ H = 1 /\ last = 0 /\ tol = 0 /\ y = 0 /\ lag = <<0, 0, 0>> /\ out = [k |-> "none"]
Do(e) ==
  \/ e.op = "reset" /\ p' = e /\ T' = e.T /\ H' = e.H /\ last' = 0 /\ tol' = 0 /\ y' = 0 /\ lag' = <<0, 0, 0>> /\ out' = [k |-> "x"]
  \/ e.op = "set" /\ p' = [p EXCEPT !.pc = e.pc, !.ch = e.ch, !.C = e.C, !.C2 = e.C2, !.T = e.T] /\ T' = e.T /\ H' = e.H /\ last' = 0 /\ tol' = 0 /\ UNCHANGED <<y, lag>> /\ out' = [k |-> "x"]
  \/ e.op = "width" /\ H' = e.H /\ UNCHANGED <<p, T, last, tol, y, lag>> /\ out' = [k |-> "none"]
  \/ e.op = "step" /\ T' = T + e.n * H /\ last' = H /\ tol' = tol + e.n * Err(H) /\ UNCHANGED <<p, H, y, lag>> /\ out' = [k |-> "x"]
  \* between the last two states: s quarters of the last step
  \/ e.op = "mid" /\ last > 0 /\ High /\ (e.s * last) % 4 = 0 /\ UNCHANGED <<p, T, H, last, tol, y, lag>> /\ out' = [k |-> "mid", s |-> e.s]
  \/ e.op = "ctl" /\ UNCHANGED <<p, T, H, last, tol, y, lag>> /\ out' = [k |-> "ctl"]
  \* the lag: step, time constant, gain (0.1); the output in 1e-3
  \/ e.op = "lag" /\ lag' = <<e.h, e.c, e.g>> /\ y' = 0 /\ UNCHANGED <<p, T, H, last, tol>> /\ out' = [k |-> "y", tol |-> 0]
  \/ /\ e.op = "in" /\ UNCHANGED <<p, T, H, last, tol, lag>> /\ out' = [k |-> "y", tol |-> 1]
     /\ y' = IF lag[1] + lag[2] <= 0 THEN 0 ELSE RDiv(lag[2] * y + lag[3] * lag[1] * 100 * e.u, lag[1] + lag[2])
Match(e, o) ==
  CASE o.k = "none" -> TRUE
    [] o.k = "x" -> Is(p', e.r.x, T', tol') /\ ("t" \in DOMAIN e.r => e.r.t = 1000 * T')
    [] o.k = "mid" -> Is(p, e.r.x, T - last + TDiv(o.s * last, 4), tol + Mid(last))
    \* the estimated error falls with the fifth power of the width (ln 32 = 3.466); the control of the width leads to the tolerance, and never to a width that is none
    [] o.k = "ctl" -> /\ e.r.good
                      /\ (e.a = 0 => ~e.r.zero /\ Near(e.r.half, 3466, 500) /\ \A i \in 1..Len(e.r.e) : Abs(e.r.e[i]) <= 250)
    [] OTHER -> OkNum(e.r.y) /\ Near(e.r.y, y', IF o.tol = 0 THEN 0 ELSE 30) /\ ("same" \in DOMAIN e.r => e.r.same)
=============================================================================
