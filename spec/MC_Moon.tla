-------------------------------- MODULE MC_Moon -------------------------------
EXTENDS Moon, VTGen
CONSTANTS Deep
VARIABLES hist
B(b, m) == [b |-> b, m |-> m]
Sels == {<<B("EARTH", "IDLE"), B("MOON", m)>> : m \in {"SIMPLE", "IAU_MOON", "IDLE", "FULL"}} \cup {<<B("MOON", m), B("SUN", "IAU_MOON"), B("EARTH", n)>> : m \in {"SIMPLE", "IAU_MOON"}, n \in {"SIMPLE", "IDLE"}}
Orbs == {[q |-> <<1, 2, 2, 0>>, k |-> 42000, a |-> 0, b |-> 1, f |-> Z3], [q |-> <<2, -3, 1, 4>>, k |-> 12900, a |-> 1, b |-> -2, f |-> <<1000, -2000, 70000>>], [q |-> <<0, 0, 1, 3>>, k |-> 40000, a |-> -1, b |-> 1, f |-> <<149000000, 5, 6>>]}
Ops == IF hist = <<>> THEN {[op |-> "reset", sel |-> s, spin |-> v, c |-> c] : s \in Sels, v \in {0, 37}, c \in {"EARTH", "MOON", "SUN"}} ELSE IF Len(hist) > Deep THEN {}
       ELSE {[op |-> "orbit", o |-> o] : o \in Orbs} \cup {[op |-> "step", n |-> n] : n \in {0, 1, 7}}
MCInit == Init /\ hist = <<>>
MCNext == \E e \in Ops : Do(e) /\ hist' = Append(hist, e)
View == <<sel, orb, spin, now, dcm, out, hist>>
EmitStep == EmitHist(hist')
EmitLong == Len(hist) = GenLen => EmitHist(hist)
\* --- the axes are a right-handed frame; the Earth stays within two minutes of arc of the first one
H(v) == [i \in 1..3 |-> RDiv(v[i], 100)]
Inv == /\ (\A i \in 1..3 : \A j \in 1..3 : Near(RDiv(Dot(H(dcm[i]), H(dcm[j])), 10000), IF i = j THEN 10000 ELSE 0, 4))
       /\ (\A i \in 1..3 : Near(RDiv(Crs(H(dcm[1]), H(dcm[2]))[i], 10000), H(dcm[3])[i], 4))
       /\ (sel # <<>> => LET P == Principal(Axes(orb)) x == Col(orb.q, 1) IN Near(RDiv(Dot(H(P[1]), x), N2(orb.q)), -10000, 3))
=============================================================================
