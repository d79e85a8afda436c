------------------------------- MODULE MC_Geo -------------------------------
EXTENDS Geo, VTGen
CONSTANTS Deep
VARIABLES hist
Pt == {<<0, 1, 1>>, <<3, 4, 5>>, <<4, 3, 5>>, <<5, 12, 13>>, <<20, 21, 29>>, <<9, 40, 41>>, <<60, 11, 61>>}
Lats == Pt \cup {<<-t[1], t[2], t[3]>> : t \in Pt} \cup {<<1, 0, 1>>, <<-1, 0, 1>>}
Lons == {<<0, 1, 1>>, <<1, 0, 1>>, <<0, -1, 1>>, <<-1, 0, 1>>, <<3, 4, 5>>, <<3, -4, 5>>, <<-4, -3, 5>>, <<-20, 21, 29>>}
Ops == IF g = None THEN {[op |-> "reset"]} ELSE IF Len(hist) > Deep THEN {}
       ELSE {[op |-> "set", la |-> la, lo |-> lo, h |-> h, turns |-> 0] : la \in Lats, lo \in Lons, h \in {-1000, 0, 400000, 35786000}} \cup {[op |-> "self"]}
            \cup {[op |-> "ecef", p |-> p] : p \in {<<7000000, 0, 0>>, <<0, -7000000, 0>>, <<0, 0, 6800000>>, <<0, 0, -42000000>>, <<-4000000, 4000000, -4000000>>, <<1, 0, 7000000>>}}
MCInit == Init /\ hist = <<>>
MCNext == \E e \in Ops : Do(e) /\ hist' = Append(hist, e)
View == <<g, out, Len(hist)>>
EmitStep == EmitHist(hist')
EmitLong == Len(hist) = GenLen => EmitHist(hist)
\* the model itself: on the ellipsoid, (x^2 + y^2) / a^2 + z^2 / b^2 = 1; the local frame is orthonormal and right-handed; up leans outwards
OnEllipsoid == g # None /\ g.k = "set" /\ g.a.h = 0 => LET p == Ecef(g.a) u(v) == TDiv(v * 10, 64) IN
   Near(MD(u(p[1]), u(p[1])) + MD(u(p[2]), u(p[2])) + MD(MD(u(p[3]), u(p[3])), 1006739), 993179, 12)
Frame == g # None /\ g.k = "set" => LET L == Ltc(g.a) d(a, b) == MD(a[1], b[1]) + MD(a[2], b[2]) + MD(a[3], b[3]) IN
   \A i \in 1..3 : \A j \in 1..3 : Near(d(L[i], L[j]), IF i = j THEN M ELSE 0, 20)
Inv == OnEllipsoid /\ Frame
=============================================================================
