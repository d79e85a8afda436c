---------------------------------- MODULE Moon --------------------------------
(* The orientation of the Moon: kept as the inertial frame, from its orbit about the Earth (mean Earth axes, turned to the
   principal ones), or from the ephemeris at the present time; which one is said for the body by its place in the list.
   Anchors: environment/global/{moon_rotation,celestial_information}.cpp, math_physics/planet_rotation/moon_rotation_utilities.cpp
   The orbit: p = k R ex, v = a R ex + b R ey about an Earth at f, R turned by the integer quaternion q (km, km/s).
   The ephemeris turns by spin degrees per second about its z axis, which lies along x.   *)
EXTENDS VTGeo, TLC
VARIABLES sel, orb, spin, now, dcm, out
vars == <<sel, orb, spin, now, dcm, out>>
None == << <<1000000, 0, 0>>, <<0, 1000000, 0>>, <<0, 0, 1000000>> >>
O0 == [q |-> Id, k |-> 380000, a |-> 0, b |-> 1, f |-> Z3]
ModeOf(b) == LET i == {j \in 1..Len(sel) : sel[j].b = b} IN IF i = {} THEN "" ELSE sel[CHOOSE j \in i : \A l \in i : j <= l].m
\* axes in units of 1e-6: x towards the Earth, z along the angular momentum
Col(q, i) == LET R == Rot(q) IN <<R[i][1], R[i][2], R[i][3]>>
Scale(v, n, s) == [i \in 1..3 |-> s * RDiv(v[i] * 1000000, n)]
Axes(o) == LET n == N2(o.q) sb == IF o.b > 0 THEN 1 ELSE -1 IN << Scale(Col(o.q, 1), n, -1), Scale(Col(o.q, 2), n, -sb), Scale(Col(o.q, 3), n, sb) >>
\* small turn from mean Earth to principal axes: 67.573, 78.580 and 0.285 seconds of arc (units of 1e-8 rad)
Tz == 32760
Ty == 38097
Tx == 138
Part(t, x) == RDiv(t * RDiv(x, 100), 1000000)
Principal(A) == << [i \in 1..3 |-> A[1][i] + Part(Tz, A[2][i]) - Part(Ty, A[3][i])],
                   [i \in 1..3 |-> A[2][i] - Part(Tz, A[1][i]) + Part(Tx, A[3][i])],
                   [i \in 1..3 |-> A[3][i] + Part(Ty, A[1][i]) - Part(Tx, A[2][i])] >>
Ephemeris(t) == LET c == 10 * CosM(((spin * t) % 360) * 1000) s == 10 * SinM(((spin * t) % 360) * 1000) IN << <<0, c, s>>, <<0, -s, c>>, <<1000000, 0, 0>> >>
Axis(t) == CASE ModeOf("MOON") = "SIMPLE" -> Principal(Axes(orb)) [] ModeOf("MOON") = "IAU_MOON" -> Ephemeris(t) [] OTHER -> None
Init == sel = <<>> /\ orb = O0 /\ spin = 0 /\ now = 0 /\ dcm = None /\ out = [k |-> "none"]
Do(e) ==
  \/ e.op = "reset" /\ sel' = e.sel /\ orb' = O0 /\ spin' = e.spin /\ now' = 0 /\ dcm' = None /\ out' = [k |-> "dcm"]
  \* the Moon and the Earth move, which is not known before the next step
  \/ e.op = "orbit" /\ orb' = e.o /\ UNCHANGED <<sel, spin, now, dcm>> /\ out' = [k |-> "dcm"]
  \/ e.op = "step" /\ now' = now + e.n /\ dcm' = (IF e.n > 0 THEN Axis(now + e.n) ELSE dcm) /\ UNCHANGED <<sel, orb, spin>> /\ out' = [k |-> "dcm"]
Match(e, o) == /\ (\A i \in 1..3 : \A j \in 1..3 : OkNum(e.r.d[3 * (i - 1) + j]) /\ Near(e.r.d[3 * (i - 1) + j], dcm'[i][j], IF ModeOf("MOON")' = "IAU_MOON" THEN 12 ELSE 2))
               \* the Earth's orientation is its own
               /\ (e.op = "step" /\ e.n > 0 => (e.r.ei <=> ModeOf("EARTH")' \notin {"SIMPLE", "FULL"}))
=============================================================================
