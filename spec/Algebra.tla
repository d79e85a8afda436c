------------------------------- MODULE Algebra --------------------------------
(* Vectors, matrices and rotations with integers. The attitude is a quaternion with integer components and an integer norm,
   so that everything it does to an integer vector is a fraction.
   Anchors: math_physics/math/{quaternion,vector,s2e_math}.cpp, {vector,matrix,matrix_vector}_template_functions.hpp      *)
EXTENDS VTGeo, TLC
VARIABLES q, out
vars == <<q, out>>
\* --- quaternions without common factors
RECURSIVE Less(_, _)
Less(p, d) == IF d > 7 THEN p ELSE IF \A i \in 1..4 : p[i] % d = 0 THEN Less([i \in 1..4 |-> TDiv(p[i], d)], d) ELSE Less(p, d + 1)
Small(p) == TLCEval(Less(p, 2))
N == Nrm(q)
Conj(p) == <<-p[1], -p[2], -p[3], p[4]>>
Close(o, e, tol) == Len(o) = Len(e) /\ \A i \in 1..Len(e) : OkNum(o[i]) /\ Near(o[i], e[i], tol)
\* a vector of integers over d, in units of 1e-3
Over(v, d) == [i \in 1..Len(v) |-> RDiv(1000 * v[i], d)]
Flat(m) == m[1] \o m[2] \o m[3]
Same(o, p) == LET e == [i \in 1..4 |-> RDiv(10000 * p[i], Nrm(p))] IN Close(o, e, 2) \/ Close(o, [i \in 1..4 |-> -e[i]], 2)
\* coordinates after turning the frame about x, y, z (milli-degrees), in 1e-4 with v in 1e-4
Bx(a, v) == LET c == C4(a) s == S4(a) IN <<v[1], RDiv(v[2] * c + v[3] * s, 10000), RDiv(v[3] * c - v[2] * s, 10000)>>
By(a, v) == LET c == C4(a) s == S4(a) IN <<RDiv(v[1] * c - v[3] * s, 10000), v[2], RDiv(v[3] * c + v[1] * s, 10000)>>
Bz(a, v) == LET c == C4(a) s == S4(a) IN <<RDiv(v[1] * c + v[2] * s, 10000), RDiv(v[2] * c - v[1] * s, 10000), v[3]>>
Up4(v) == [i \in 1..Len(v) |-> 10000 * v[i]]
\* --- matrices as sequences of rows
Row(m, i) == m[i]
Col(m, j) == [i \in 1..Len(m) |-> m[i][j]]
RECURSIVE Dots(_, _, _)
Dots(a, b, i) == IF i > Len(a) THEN 0 ELSE a[i] * b[i] + Dots(a, b, i + 1)
Mul(a, b) == [i \in 1..Len(a) |-> [j \in 1..Len(b[1]) |-> Dots(a[i], Col(b, j), 1)]]
Without(m, i, j) == LET F(s, k) == SubSeq(s, 1, k - 1) \o SubSeq(s, k + 1, Len(s)) IN [r \in 1..(Len(m) - 1) |-> F(m[IF r < i THEN r ELSE r + 1], j)]
RECURSIVE Det(_, _)
Det(m, j) == IF Len(m) = 1 THEN m[1][1] ELSE IF j > Len(m) THEN 0 ELSE (IF j % 2 = 1 THEN 1 ELSE -1) * m[1][j] * Det(Without(m, 1, j), 1) + Det(m, j + 1)
\* --- angles
Wrapped(a, o) == OkNum(o) /\ o >= -1 /\ o <= 360001 /\ (Abs(o - a) % 360000 <= 2 \/ Abs(o - a) % 360000 >= 359998)
\* an angle (milli-degrees) between two vectors: its cosine times their lengths
CosIs(o, a, b) == OkNum(o) /\ o >= 0 /\ o <= 180000 /\ LET c == CosM(o) l == Nrm(a) * Nrm(b) IN Near(c, RDiv(100000 * Dot(a, b), l), 20)
                  /\ (N2(Crs(a, b)) = 0 => o = (IF Dot(a, b) > 0 THEN 0 ELSE 180000))
Init == q = Id /\ out = [k |-> "none"]
Do(e) ==
  \/ e.op = "reset" /\ q' = Id /\ out' = [k |-> "none"]
  \/ e.op = "set" /\ q' = Small(e.q) /\ out' = [k |-> "q"]
  \/ e.op = "mul" /\ q' = Small(QMul(q, e.q)) /\ out' = [k |-> "q"]
  \/ e.op = "conj" /\ q' = Conj(q) /\ out' = [k |-> "q"]
  \* the attitude that an axis (unit vector times n) and an angle (quarter turns) give
  \/ e.op = "axis" /\ e.a \in {-180, 0, 180, 360} /\ q' = Small(IF e.a % 360 = 0 THEN Id ELSE e.v \o <<0>>) /\ out' = [k |-> "q"]
  \/ e.op \in {"conv", "euler", "turn", "axis2", "vec", "pair", "mat", "inv", "wrap", "rot"} /\ UNCHANGED q /\ out' = [k |-> e.op]
Match(e, o) ==
  CASE o.k = "none" -> TRUE
    \* the quaternion itself, its matrix, the quaternion that comes back out of it, and through Euler angles
    [] o.k = "q" -> Same(e.r.q, q') /\ Same(e.r.d, q') /\ Same(e.r.eq, q') /\ LET n2 == N2(q') IN Close(e.r.m, Over(Flat(Rot(q')), n2), 1)
    [] o.k = "conv" -> LET n2 == N2(q) IN Close(e.r.f, Over(App(Rot(q), e.v), n2), 2) /\ Close(e.r.b, Over(App(Trp(Rot(q)), e.v), n2), 2) /\ Close(e.r.m, Over(App(Rot(q), e.v), n2), 2)
    \* Euler angles: about z, then y, then x
    [] o.k = "euler" -> Close(e.r.f, Bx(e.a[1], By(e.a[2], Bz(e.a[3], Up4(e.v)))), 25) /\ (Abs(e.a[2]) < 89500 => \A i \in 1..3 : Wrapped(e.a[i], IF e.r.e[i] < 0 THEN e.r.e[i] + 360000 ELSE e.r.e[i]))
    [] o.k = "rot" -> Close(e.r.x, Bx(e.a, Up4(e.v)), 10) /\ Close(e.r.y, By(e.a, Up4(e.v)), 10) /\ Close(e.r.z, Bz(e.a, Up4(e.v)), 10)
    \* a frame turned by any angle about an axis
    [] o.k = "axis2" -> LET n == Nrm(e.u) IN Close(e.r.f, Turn([i \in 1..3 |-> RDiv(10000 * e.u[i], n)], e.a, [i \in 1..3 |-> 1000 * e.v[i]]), 12)
    \* the shortest rotation that takes one direction to the other
    [] o.k = "turn" -> Close(e.r.f, [i \in 1..3 |-> RDiv(10000 * e.b[i], Nrm(e.b))], 2) /\ OkNum(e.r.n) /\ Near(e.r.n, 10000, 2) /\ Abs(e.r.pa) <= 2 /\ Abs(e.r.pb) <= 2 /\ e.r.w >= -1
    [] o.k = "vec" -> LET n == Nrm(e.v) IN Near(e.r.n, 10000 * n, 1) /\ Close(e.r.u, [i \in 1..3 |-> IF n = 0 THEN 0 ELSE RDiv(10000 * e.v[i], n)], 1)
         /\ (n > 0 => Abs(e.r.dot) <= 1 /\ Near(e.r.on, 10000, 1))
         \* polar coordinates lead back
         /\ (n > 0 => LET rz == RDiv(CosM(e.r.p[2]), 10) rx == RDiv(SinM(e.r.p[2]), 10) IN Near(e.r.p[1], 10000 * n, 1) /\ e.r.p[2] \in 0..180000 /\ e.r.p[3] \in 0..360000
              /\ Near(n * rz, 10000 * e.v[3], 5 * n) /\ Near(n * RDiv(rx * C4(e.r.p[3]), 10000), 10000 * e.v[1], 8 * n) /\ Near(n * RDiv(rx * S4(e.r.p[3]), 10000), 10000 * e.v[2], 8 * n))
    [] o.k = "pair" -> e.r.dot = Dot(e.a, e.b) /\ e.r.x = Crs(e.a, e.b) /\ e.r.s = [i \in 1..3 |-> e.a[i] + e.b[i]] /\ e.r.d = [i \in 1..3 |-> e.a[i] - e.b[i]] /\ e.r.k = [i \in 1..3 |-> e.n * e.a[i]] /\ e.r.m = [i \in 1..3 |-> -e.a[i]]
                       /\ Close(e.r.q, [i \in 1..3 |-> RDiv(1000 * e.a[i], e.n)], 1) /\ CosIs(e.r.ang, e.a, e.b)
    [] o.k = "mat" -> e.r.p = Mul(e.a, e.b) /\ e.r.s = [i \in 1..Len(e.a) |-> [j \in 1..Len(e.a) |-> e.a[i][j] + e.b[i][j]]] /\ e.r.d = [i \in 1..Len(e.a) |-> [j \in 1..Len(e.a) |-> e.a[i][j] - e.b[i][j]]]
                      /\ e.r.t = [i \in 1..Len(e.a) |-> Col(e.a, i)] /\ e.r.tr = Dots([i \in 1..Len(e.a) |-> e.a[i][i]], [i \in 1..Len(e.a) |-> 1], 1) /\ e.r.v = [i \in 1..Len(e.a) |-> Dots(e.a[i], e.v, 1)]
    \* the inverse (1e-5): times the matrix it gives one; a matrix without one may be refused
    [] o.k = "inv" -> IF Det(e.a, 1) = 0 THEN TRUE ELSE "m" \in DOMAIN e.r /\ (\A i, j \in 1..Len(e.a) : OkNum(e.r.m[i][j]) /\ Abs(e.r.m[i][j]) < 2500000)
                        /\ (\A i, j \in 1..Len(e.a) : Near(Dots(e.a[i], Col(e.r.m, j), 1), IF i = j THEN 100000 ELSE 0, 40))
                        /\ \A i \in 1..Len(e.a) : Near(Dots(e.a[i], e.r.x, 1), 100000 * e.v[i], 40)
    [] OTHER -> Wrapped(e.a, e.r.a)
=============================================================================
