------------------------------ MODULE Structure ------------------------------
(* The structure of a spacecraft: mass, centre of gravity, inertia and faces, as read and as changed during the run, the push of the
   sunlight on it, and its motion.
   Anchors: simulation/spacecraft/structure/*, simulation/spacecraft/spacecraft.cpp, disturbances/surface_force.*.
   Masses in 0.1 kg, lengths in dm, inertia in kg m2, areas in 1e5 m2, optical properties in tenths, forces in mN, torques in 1e-4 Nm. *)
EXTENDS VTLib, VTGeo, TLC
VARIABLES kin,     \* <<[m, cog, I]>>
          faces,   \* sequence of [a, ref, spec, air, pos, n]
          out
vars == <<kin, faces, out>>
Init == kin = <<>> /\ faces = <<>> /\ out = "none"
Is(x) == x # <<>>
Share(x) == x >= 0 /\ x <= 10
Valid(f) == f.a >= 0 /\ Share(f.ref) /\ Share(f.spec) /\ Share(f.air)
RECURSIVE Front(_)
Front(s) == IF s = <<>> THEN <<>> ELSE IF ~Valid(s[1]) THEN <<>> ELSE <<s[1]>> \o Front(SubSeq(s, 2, Len(s)))
Reset(e) == kin' = <<[m |-> e.m, cog |-> e.cog, I |-> e.I]>> /\ faces' = Front(e.faces)
Kin(f, v) == [kin EXCEPT ![1] = CASE f = "mass" -> (IF v[1] > 0 THEN [@ EXCEPT !.m = v[1]] ELSE @)
                                  [] f = "add" -> (IF @.m + v[1] > 0 THEN [@ EXCEPT !.m = @ + v[1]] ELSE @)
                                  [] f = "cog" -> [@ EXCEPT !.cog = v]
                                  [] OTHER -> [@ EXCEPT !.I = v]]
NewFace(v) == [a |-> v[1], ref |-> 5, spec |-> 5, air |-> 5, pos |-> <<0, 0, 0>>, n |-> <<1, 0, 0>>]
Face(f, v, x) == CASE f = "a" -> (IF v[1] > 0 THEN [x EXCEPT !.a = v[1]] ELSE x)
                   [] f = "ref" -> (IF Share(v[1]) THEN [x EXCEPT !.ref = v[1]] ELSE x)
                   [] f = "spec" -> (IF Share(v[1]) THEN [x EXCEPT !.spec = v[1]] ELSE x)
                   [] f = "air" -> (IF Share(v[1]) THEN [x EXCEPT !.air = v[1]] ELSE x)
                   [] f = "pos" -> [x EXCEPT !.pos = v]
                   [] OTHER -> [x EXCEPT !.n = v]
Set(e) == IF e.f \in {"mass", "add", "cog", "I"} THEN kin' = Kin(e.f, e.v) /\ UNCHANGED faces
          ELSE /\ UNCHANGED kin
               /\ faces' = CASE e.f = "drop" -> (IF faces = <<>> THEN <<>> ELSE SubSeq(faces, 1, Len(faces) - 1))
                             [] e.f = "face" -> Append(faces, NewFace(e.v))
                             [] OTHER -> (IF e.k < Len(faces) THEN [faces EXCEPT ![e.k + 1] = Face(e.f, e.v, @)] ELSE faces)
Do(e) == \/ e.op = "reset" /\ Reset(e) /\ out' = "none"
         \/ Is(kin) /\ e.op = "set" /\ Set(e) /\ out' = "set"
         \/ Is(kin) /\ e.op = "step" /\ UNCHANGED <<kin, faces>> /\ out' = "step"
\* a whole direction as a unit vector in 1e-4
Unit(n) == LET l == Nrm(n) IN [i \in 1..3 |-> TDiv(n[i] * 10000, l)]
\* push of the light from direction s (1e-4) on a face, in units of pressure times area, in 1e-4
Push(f, s) == LET n == Unit(f.n) c == RDiv(Dot(n, s), 10000) rs == f.ref * f.spec rd == f.ref * (10 - f.spec)
                  along == RDiv((100 - rs) * c, 100)
                  normal == RDiv(2 * rs * RDiv(c * c, 10000) + RDiv(2 * rd * c, 3), 100)
              IN IF c <= 0 THEN <<0, 0, 0>> ELSE [i \in 1..3 |-> -(TDiv(along * s[i], 10000) + TDiv(normal * n[i], 10000))]
Force(f, s, p) == LET u == TLCEval(Push(f, s)) IN [i \in 1..3 |-> TDiv(TDiv(p * f.a * u[i], 100), 1000)]
Minus(a, b) == [i \in 1..3 |-> a[i] - b[i]]
Plus(a, b) == [i \in 1..3 |-> a[i] + b[i]]
RECURSIVE Sum(_, _)
Sum(s, i) == IF i > Len(s) THEN <<0, 0, 0>> ELSE Plus(s[i], Sum(s, i + 1))
Light(s, p) == TLCEval([k \in 1..Len(faces) |-> Force(faces[k], s, p)])
Biggest(v) == Max2(Abs(v[1]), Max2(Abs(v[2]), Abs(v[3])))
RECURSIVE Big(_, _)
Big(s, i) == IF i > Len(s) THEN 0 ELSE Max2(s[i], Big(s, i + 1))
VN(a, b, t) == \A i \in 1..3 : OkNum(a[i]) /\ Near(a[i], b[i], t)
IMat(I) == <<I[1], I[4], I[5], I[4], I[2], I[6], I[5], I[6], I[3]>>
SameFace(o, f) == /\ o.a = f.a /\ o.ref = f.ref /\ o.spec = f.spec /\ o.air = f.air /\ VN(o.pos, f.pos, 0) /\ VN(o.n, Unit(f.n), 2)
Kept(r, k, fs) == /\ r.m = k[1].m /\ r.cog = k[1].cog /\ r.I = IMat(k[1].I)
                  /\ Len(r.fs) = Len(fs) /\ \A i \in 1..Len(fs) : SameFace(r.fs[i], fs[i])
Moved(e) ==
  LET s == Unit(e.sun) fo == Light(s, e.r.p)
      lever == TLCEval([k \in 1..Len(faces) |-> Crs(Minus(faces[k].pos, kin[1].cog), fo[k])])
      size == TLCEval([k \in 1..Len(faces) |-> Biggest(fo[k])])
      total == TLCEval(Sum(fo, 1)) turn == TLCEval(Sum(lever, 1))
      tf == 3 + Len(faces) + (Big(size, 1) \div 400) I == kin[1].I
      dw == e.r.dw t == TLCEval(Plus(e.to, e.r.dt)) f == TLCEval(Plus(e.fo, e.r.df))
  IN /\ OkNum(e.r.p) /\ e.r.p >= 0 /\ e.r.p < 5200 /\ (e.sun[1] >= 0 => e.r.p > 4000)
     /\ VN(e.r.df, total, tf) /\ VN(e.r.dt, turn, 40 * tf)
     /\ \A i \in 1..3 : OkNum(dw[i]) /\ OkNum(e.r.dv[i]) /\ Abs(dw[i]) < 190000 /\ Abs(e.r.dv[i]) < 20000000
     /\ \A i \in 1..3 : Near(kin[1].m * (e.r.dv[i] \div 10), f[i] * 100, 200 + kin[1].m + Biggest(f) \div 4)
     /\ Near((I[1] * dw[1] + I[4] * dw[2] + I[5] * dw[3]) \div 1000, t[1], 30 + Biggest(t) \div 100)
     /\ Near((I[4] * dw[1] + I[2] * dw[2] + I[6] * dw[3]) \div 1000, t[2], 30 + Biggest(t) \div 100)
     /\ Near((I[5] * dw[1] + I[6] * dw[2] + I[3] * dw[3]) \div 1000, t[3], 30 + Biggest(t) \div 100)
Match(e, o) == Kept(e.r, kin', faces') /\ (o = "step" => Moved(e))
=============================================================================
