---------------------------------- MODULE Earth -------------------------------
(* The orientation of the Earth at a time: none, the sidereal angle about the mean pole, or with the precession of the
   mean and the nutation of the true pole.   Anchors: environment/global/earth_rotation.cpp
   Time: d days and m minutes after 2000-01-01 12:00.  What the full rotation adds to the sidereal angle is a small turn,
   given here as its difference E from the identity in 1e-8, to second order.   *)
EXTENDS VTGeo, TLC
VARIABLES mode, at, out
vars == <<mode, at, out>>
\* mean sidereal angle in 1e-5 degrees
Gmst(d, m) == (28046062 + ((d * 98564 + RDiv(d * 7366, 10000)) % 36000000) + m * 25068 + RDiv(m * 4475, 10000)) % 36000000
\* arguments of the Moon and the Sun in milli-degrees: at 2000, per day, and the ten-thousandths of it
Arg(a0, r1, r2, d, m) == (a0 + d * r1 + RDiv(d * r2, 10000) + RDiv(m * r1, 1440)) % 360000
Lm(d, m) == Arg(134963, 13064, 9930, d, m)
Ls(d, m) == Arg(357529, 985, 6003, d, m)
Fm(d, m) == Arg(93272, 13229, 3502, d, m)
Dm(d, m) == Arg(297850, 12190, 7491, d, m)
Om(d, m) == Arg(125045, -52, -9538, d, m)
Sum9(c, t) == RDiv(c[1] * t[1] + c[2] * t[2] + c[3] * t[3] + c[4] * t[4] + c[5] * t[5] + c[6] * t[6] + c[7] * t[7] + c[8] * t[8] + c[9] * t[9], 100000)
Args(d, m) == LET o == Om(d, m) l == Fm(d, m) + o ld == l - Dm(d, m) s == Ls(d, m) n == Lm(d, m) IN <<o, 2 * ld, 2 * o, 2 * l, s, n, 2 * ld + s, 2 * l + n, 2 * ld - s>>
\* nutation in longitude and obliquity, 1e-8 rad
Psi(d, m) == LET a == Args(d, m) IN Sum9(<<-83417, -6385, 1004, -1105, 718, 344, -252, -145, 107>>, [i \in 1..9 |-> S4(a[i])])
Eps(d, m) == LET a == Args(d, m) IN Sum9(<<44627, 2778, -436, 475, 34, -5, 107, 63, -48>>, [i \in 1..9 |-> C4(a[i])])
\* precession angles, 1e-8 rad; t in thousandths of a century
Thou(d) == RDiv(d * 20, 731)
Zeta(d, m) == RDiv(d * 30611, 1000) + RDiv(m * 3061, 144000) + RDiv(d, 2222) + RDiv(Thou(d) * Thou(d), 6833)
Zz(d, m) == RDiv(d * 30611, 1000) + RDiv(m * 3061, 144000) + RDiv(d, 2222) + RDiv(Thou(d) * Thou(d) * 5, 9422)
Theta(d, m) == RDiv(d * 26604, 1000) + RDiv(m * 2660, 144000) + RDiv(d, 2222) - RDiv(Thou(d) * Thou(d), 4835)
Mul(a, b) == RDiv(RDiv(a, 100) * RDiv(b, 100), 10000)
Prec(d, m) == LET a == Zeta(d, m) + Zz(d, m) th == Theta(d, m) IN
  << <<-RDiv(Mul(a, a) + Mul(th, th), 2), -a, -th>>, <<a, -RDiv(Mul(a, a), 2), -Mul(th, Zz(d, m))>>, <<th, -Mul(th, Zeta(d, m)), -RDiv(Mul(th, th), 2)>> >>
Small(d, m) == LET P == Prec(d, m) ps == RDiv(Psi(d, m) * 3978, 10000) ep == Eps(d, m) IN
  << [j \in 1..3 |-> P[1][j] - Mul(ps, P[3][j]) - (IF j = 3 THEN ps ELSE 0)],
     [j \in 1..3 |-> P[2][j] - Mul(ep, P[3][j]) - (IF j = 3 THEN ep ELSE 0)],
     [j \in 1..3 |-> P[3][j] + Mul(ps, P[1][j]) + Mul(ep, P[2][j]) + (IF j = 1 THEN ps ELSE IF j = 2 THEN ep ELSE 0)] >>
Tol(d) == LET t == RDiv(Abs(Thou(d)), 10) IN 12 + RDiv(t * t * t, 4000)
Init == mode = "" /\ at = <<>> /\ out = [k |-> "none"]
Do(e) ==
  \/ e.op = "reset" /\ mode' = e.m /\ at' = <<>> /\ out' = [k |-> "at"]
  \/ e.op = "go" /\ mode # "" /\ at' = <<e.d, e.m>> /\ UNCHANGED mode /\ out' = [k |-> "at"]
Same(s, w, tol) == \A i \in 1..3 : \A j \in 1..3 : OkNum(s[3 * (i - 1) + j]) /\ Near(s[3 * (i - 1) + j], w[i][j], tol)
Zero3 == <<Z3, Z3, Z3>>
Unit3 == << <<100000, 0, 0>>, <<0, 100000, 0>>, <<0, 0, 100000>> >>
\* r.s: the matrix in 1e-5; r.e: its difference from the sidereal turn at that time, 1e-8; without a turn, from the identity
Side(d, m) == LET a == RDiv(Gmst(d, m), 100) IN
  LET c == CosF(a) s == SinF(a) IN << <<c, s, 0>>, <<-s, c, 0>>, <<0, 0, 100000>> >>
Match(e, o) ==
  IF mode' \notin {"SIMPLE", "FULL"} \/ at' = <<>> THEN e.r.id /\ Same(e.r.s, Unit3, 0) /\ Same(e.r.e, Zero3, 0)
  ELSE /\ Same(e.r.s, Side(at'[1], at'[2]), 6)
       /\ Same(e.r.e, IF mode' = "SIMPLE" THEN Zero3 ELSE Small(at'[1], at'[2]), IF mode' = "SIMPLE" THEN 0 ELSE Tol(at'[1]))
=============================================================================
