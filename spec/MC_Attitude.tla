---------------------------- MODULE MC_Attitude ----------------------------
EXTENDS Attitude, VTGen
CONSTANTS Fam, Deep
VARIABLES hist
Q1 == {Id, <<1, 2, 2, 4>>}
Rs == {[op |-> "reset", can |-> Fam = 3, ini |-> i, q |-> q, att |-> a, I |-> ii, J |-> <<5, 3, 7>>, kf |-> 60, ze |-> z, step |-> 20, w |-> <<0, 0, 0>>, T |-> Z3] :
       i \in {TRUE, FALSE}, q \in {<<1, 2, 2, 4>>}, a \in Q1, ii \in (IF Fam = 3 THEN {<<4, 1, 9>>} ELSE IF Fam = 2 THEN {<<2, 2, 3>>, <<5, 2, 2>>} ELSE {<<2, 3, 4>>}), z \in (IF Fam = 3 THEN {0, 20} ELSE {0})}
Spins == {[op |-> "spin", w |-> v] : v \in (CASE Fam = 1 -> {<<9000, 0, 0>>, <<0, -6000, 0>>, <<0, 0, 12000>>} [] Fam = 2 -> {<<6000, 0, 8000>>, <<-3000, 4000, 5000>>, <<0, 0, 7000>>} [] OTHER -> {<<0, 5000, 0>>, Z3})}
Tqs == {[op |-> "torque", T |-> v] : v \in (CASE Fam = 1 -> {Z3, <<6000, 0, 0>>, <<0, 0, -8000>>} [] Fam = 2 -> {Z3} [] OTHER -> {<<0, 9000, 0>>, Z3})}
Whs == {[op |-> "wheel", h |-> v] : v \in (IF Fam = 2 THEN {<<0, 0, 12000>>, <<15000, 0, 0>>, Z3} ELSE IF Fam = 1 THEN {<<0, 0, 9000>>} ELSE {})}
Mss == {[op |-> "mass", I |-> v] : v \in (IF Fam = 1 THEN {<<4, 3, 2>>} ELSE {})}
Tns == {[op |-> "turn", q |-> v] : v \in (IF Fam = 1 THEN {<<1, 1, 1, 1>>} ELSE {})}
Gos == {[op |-> "go", dt |-> d, n |-> n] : d \in (IF Fam = 3 THEN {1000, 3200} ELSE {1000, 2500}), n \in (IF Fam = 1 THEN {1} ELSE {1, 3})}
Ops == IF ~Is(b) THEN Rs ELSE IF Len(hist) > Deep THEN {} ELSE
       {e \in Spins : e.w # w} \cup {e \in Tqs : e.T # tq} \cup {e \in Whs : e.h # h} \cup {e \in Mss : e.I # b.I} \cup Tns \cup Gos \cup (IF Fam = 1 THEN {[op |-> "again"]} ELSE {})
MCInit == Init /\ hist = <<>>
MCNext == \E e \in Ops : Do(e) /\ hist' = Append(hist, e)
View == <<b, c, w, h, tq, x, y, out, Len(hist)>>
EmitStep == EmitHist(hist')
EmitLong == Len(hist) = GenLen => EmitHist(hist)
\* --- properties
\* the axes stay perpendicular and of length one
Ortho == Is(b) => \A i \in 1..3 : Abs(Dot(c[i], c[i]) \div 10000 - 10000) <= 40 /\ \A j \in 1..3 : i # j => Abs(Dot(c[i], c[j]) \div 10000) <= 40
\* in the closed forms: momentum in the inertial frame is kept without torque, and energy too
Conserve == [][hist' # hist => (hist' # <<>> /\ hist'[Len(hist')].op = "go" /\ Is(b) /\ ~b.can /\ tq = Z3 /\ out'.k \in {"planar", "top"} =>
     LET l0 == InI(c, L16(Mom(b.I0, w))) l1 == InI(c', L16(Mom(b.I, w'))) IN
     /\ VN(l0, l1, 40)
     /\ (b.I = b.I0 => Near(E4(b.I, w), E4(b.I, w'), ETol(b.I, w) + E4(b.I, w) \div 200)))]_vars
\* with a cantilever, the momentum of both together is kept without torque
ConserveC == [][hist' # hist => (hist' # <<>> /\ hist'[Len(hist')].op = "go" /\ Is(b) /\ b.can /\ tq = Z3 /\ out'.k = "can" =>
     \A a \in 1..3 : Near((b.I[a] + b.J[a]) * w[a] + b.J[a] * y[a], (b.I[a] + b.J[a]) * w'[a] + b.J[a] * y'[a], 30))]_vars
Inv == Ortho
=============================================================================
