----------------------------- MODULE MC_Algebra ------------------------------
EXTENDS Algebra, VTGen
CONSTANTS Deep
VARIABLES hist
Qs == {<<0, 0, 0, 1>>, <<1, 0, 0, 0>>, <<0, 0, -1, 0>>, <<1, 1, 1, 1>>, <<1, -1, 1, -1>>, <<1, 2, 2, 4>>, <<-2, 4, 1, 2>>, <<0, 3, 0, 4>>, <<4, 2, -2, -1>>, <<2, 0, 1, -2>>}
Vs == {<<1, 2, 2>>, <<-2, 3, 6>>, <<4, 0, -3>>, <<0, 0, 1>>, <<0, -5, 0>>, <<7, 0, 0>>, <<6, -2, -3>>, <<-1, -2, -2>>, <<0, 0, -3>>}
As == {-180000, -90000, -37000, 0, 30000, 90000, 123456, 180000}
Ms == {<< <<2, 0, 0>>, <<0, 3, 0>>, <<0, 0, -1>> >>, << <<0, 1, 2>>, <<1, 0, 3>>, <<4, -3, 8>> >>, << <<1, 2, 3>>, <<2, 4, 6>>, <<1, 0, 1>> >>, << <<0, 0, 1>>, <<1, 0, 0>>, <<0, 1, 0>> >>}
First == {[op |-> "set", q |-> x] : x \in {y \in Qs : N2(y) \in {1, 4, 9, 16, 25}}} \cup {[op |-> "axis", v |-> v, a |-> a] : v \in Vs, a \in {-180, 0, 180, 360}}
  \cup {[op |-> "euler", a |-> <<a, b, c>>, v |-> <<1, 2, -2>>] : a \in {-170000, 0, 90000}, b \in {-90000, -45000, 0, 60000, 90000}, c \in {-90000, 20000, 179000}} \cup {[op |-> "rot", a |-> a, v |-> <<1, -2, 3>>] : a \in As}
  \cup {[op |-> "axis2", u |-> u, a |-> a, v |-> <<3, 1, -2>>] : u \in Vs, a \in As} \cup {[op |-> "turn", a |-> a, b |-> b] : a \in Vs, b \in Vs} \cup {[op |-> "vec", v |-> v] : v \in Vs \cup {<<0, 0, 0>>}}
  \cup {[op |-> "pair", a |-> a, b |-> b, n |-> 3] : a \in Vs, b \in Vs} \cup {[op |-> "mat", a |-> a, b |-> b, v |-> <<1, -2, 5>>] : a \in Ms, b \in Ms} \cup {[op |-> "inv", a |-> a, v |-> <<3, 0, -1>>] : a \in Ms}
  \cup {[op |-> "wrap", a |-> a] : a \in {-1080000, -720001, -1, 0, 1, 359999, 360000, 360001, 1000000}}
Muls == {[op |-> "mul", q |-> x] : x \in {y \in Qs : N2(y) \in {1, 4, 9, 16, 25} /\ Nrm(y) * N <= 130}} \cup {[op |-> "conj"]}
Ops == IF hist = <<>> THEN {[op |-> "reset"]} ELSE IF Len(hist) = 1 THEN First ELSE IF hist[2].op \notin {"set", "axis"} \/ Len(hist) > Deep THEN {}
       ELSE Muls \cup {[op |-> "conv", v |-> v] : v \in Vs}
MCInit == Init /\ hist = <<>>
MCNext == \E e \in Ops : Do(e) /\ hist' = Append(hist, e)
View == <<q, out, hist>>
EmitStep == EmitHist(hist')
EmitLong == Len(hist) = GenLen => EmitHist(hist)
\* --- rotations: lengths stay, turning back undoes, one after the other is the product; determinants
Laws == /\ \A v \in Vs : N2(App(Rot(q), v)) = N2(q) * N2(q) * N2(v) /\ App(Trp(Rot(q)), App(Rot(q), v)) = [i \in 1..3 |-> N2(q) * N2(q) * v[i]]
        /\ \A p \in {<<1, 1, 1, 1>>, <<1, 2, 2, 4>>} : N * Nrm(p) <= 50 => \A v \in Vs : App(Rot(QMul(q, p)), v) = App(Rot(p), App(Rot(q), v))
        /\ App(Rot(Conj(q)), <<1, 2, 3>>) = App(Trp(Rot(q)), <<1, 2, 3>>)
Inv == (N <= 30 => Laws) /\ (Len(hist) = 1 => \A a, b \in Ms : Det(Mul(a, b), 1) = Det(a, 1) * Det(b, 1))
=============================================================================
