-------------------------------- MODULE MC_Tle --------------------------------
EXTENDS Tle, VTGen
CONSTANTS Deep2
VARIABLES hist
S(n, i, e, b, y, t) == [n |-> n, i |-> i, o |-> 247463, w |-> 130536, m |-> 325029, e |-> e, b |-> b, y |-> y, d |-> 92, f |-> 4, t0 |-> t]
Sets == {<<S(155000, 51640, 7, 0, 20, 0)>>, <<S(142000, 98200, 100, 0, 99, 100), S(130000, 20000, 20, 0, 0, -30)>>, <<S(20056, 55000, 50, 0, 20, 0), S(155000, 90000, 0, 0, 21, 0)>>, <<S(150000, 120000, 150, 0, 20, 700)>>}
Ts == {0, 1, 45, 720, 1440, -200}
Ops == IF hist = <<>> THEN {[op |-> "reset", s |-> s, wgs |-> w, ini |-> i] : s \in Sets, w \in 0..2, i \in BOOLEAN} ELSE IF Len(hist) > Deep2 THEN {}
       ELSE {[op |-> "go", k |-> k - 1, t |-> t] : k \in 1..Len(sat), t \in Ts} \cup (IF Len(hist) = 2 THEN {[op |-> "flag", k |-> 0, on |-> FALSE]} ELSE {})
MCInit == Init /\ hist = <<>>
MCNext == \E e \in Ops : Do(e) /\ hist' = Append(hist, e)
View == <<sat, now, on, out, hist>>
EmitStep == EmitHist(hist')
EmitLong == Len(hist) = GenLen => EmitHist(hist)
\* --- directions stay directions; the position is on the ellipse; a polar orbit has no drift of its node
Inv == \A j \in 1..Len(sat) : \A t \in {0, 50, 1000} : LET d == Dir(sat[j], t) IN Near(RDiv(Dot(d, d), 10000), 10000, 12) /\ Near(Rad(sat[j], t), Axis(sat[j].n), RDiv(Axis(sat[j].n) * (sat[j].e + 5), 10000) + 5)
                               /\ (sat[j].i = 90000 => Node(sat[j], t) = sat[j].o)
=============================================================================
