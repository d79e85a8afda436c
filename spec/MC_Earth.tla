-------------------------------- MODULE MC_Earth ------------------------------
EXTENDS Earth, VTGen
CONSTANTS Deep
VARIABLES hist
Ds == {-18000, -3652, 0, 1, 4500, 7306, 9000, 18000}
Ops == IF hist = <<>> THEN {[op |-> "reset", m |-> m] : m \in {"IDLE", "SIMPLE", "FULL", "full"}} ELSE IF Len(hist) > Deep THEN {}
       ELSE {[op |-> "go", d |-> d, m |-> m] : d \in Ds, m \in {0, 719, 1100}}
MCInit == Init /\ hist = <<>>
MCNext == \E e \in Ops : Do(e) /\ hist' = Append(hist, e)
View == <<mode, at, out, hist>>
EmitStep == EmitHist(hist')
EmitLong == Len(hist) = GenLen => EmitHist(hist)
\* --- to second order, rotation: E + E' + E E' = 0; the pole moves by about 20 seconds of arc a year
Ort(E) == \A i \in 1..3 : \A j \in 1..3 : Abs(E[i][j] + E[j][i] + Mul(E[i][1], E[j][1]) + Mul(E[i][2], E[j][2]) + Mul(E[i][3], E[j][3])) <= 60
Inv == /\ (\A d \in Ds : \A m \in {0, 700} : Ort(Small(d, m)) /\ Abs(Small(d, m)[3][1] - RDiv(d * 2660, 100)) <= 4000 + Tol(d))
       /\ (\A d \in Ds : \A m \in {0, 700} : Abs(Gmst(d, m + 1) - Gmst(d, m)) \in {25068, 25069, 36000000 - 25068, 36000000 - 25069})
=============================================================================
