------------------------------ MODULE MC_Ideal --------------------------------
EXTENDS Ideal, VTGen
CONSTANTS Deep
VARIABLES hist
Qs == {<<0, 0, 0, 1>>, <<1, 2, 2, 4>>, <<-1, 1, 1, 1>>, <<0, 3, 0, -4>>}
Ls == {<< <<1, 0, 0>>, <<0, 1, 0>>, <<0, 0, 1>> >>, << <<1, 2, 2>>, <<2, 1, -2>>, <<-2, 2, -1>> >>, << <<2, 3, 6>>, <<-6, -2, 3>>, <<3, -6, 2>> >>, << <<0, 0, -1>>, <<-1, 0, 0>>, <<0, 1, 0>> >>}
C(i, n) == [op |-> "reset", ini |-> i, ms |-> 100 * n, ds |-> 2000 * n, mt |-> 50 * n, dt |-> 1000 * n, ns |-> [k \in 1..6 |-> 100 * k * n], fr |-> IF n = 2 THEN "RTN" ELSE "INERTIAL", as |-> 500 * n, bias |-> <<10, -20, 0>>, rc |-> 200, rz |-> 400]
Vs == {<<0, 0, 0>>, <<3, 0, -4>>, <<-7, 5, 1>>}
P(q, l, w) == [op |-> "pose", q |-> q, ra |-> l[1], rb |-> l[2], rc |-> l[3], x |-> 6900, vr |-> -30, vt |-> 7500, w |-> w]
Big == {[op |-> "stats", of |-> k, n |-> 400, ra |-> pose.l[1], rb |-> pose.l[2], rc |-> pose.l[3], k |-> 20] : k \in {"force", "torque", "orbit", "att"}} \cup {[op |-> "two"]}
Ops == CASE hist = <<>> -> {C(i, n) : i \in BOOLEAN, n \in 0..2}
         [] Len(hist) = 1 -> {P(q, l, <<100, -300, 500>>) : q \in Qs, l \in Ls}
         [] Len(hist) = 2 -> {[op |-> "force", f |-> f, v |-> v] : f \in {"b", "i", "rtn"}, v \in Vs} \cup {[op |-> "torque", v |-> v] : v \in Vs} \cup {[op |-> "see"]} \cup (IF cfg.ms > 0 /\ pose.q = Id THEN Big ELSE {})
         [] Len(hist) = 3 /\ hist[3].op \in {"force", "torque"} -> {P(pose.q, l, Z3) : l \in Ls} \cup {P(q, pose.l, Z3) : q \in Qs}
         [] Len(hist) = 4 -> {[op |-> "run"], [op |-> "off"]}
         [] Len(hist) > 4 /\ Len(hist) < Deep -> {P(<<0, 3, 0, -4>>, pose.l, <<-500, 0, 210>>), [op |-> "run"], [op |-> "see"], [op |-> "force", f |-> "i", v |-> <<1, 2, 3>>]}
         [] OTHER -> {}
MCInit == Init /\ hist = <<>>
MCNext == \E e \in Ops : Do(e) /\ hist' = Append(hist, e)
View == <<cfg, pose, F, T, out, hist>>
EmitStep == EmitHist(hist')
EmitLong == Len(hist) = GenLen => EmitHist(hist)
\* --- frames: the orbit's frame is right-handed, and a force is as long in every frame
Inv == /\ Crs(pose.l[1], pose.l[2]) = [i \in 1..3 |-> pose.n * pose.l[3][i]]
       /\ LET a == FromB(pose, F) IN Near(Len3(a), Len3(F), 3) /\ Near(Len3(ToL(pose, a)), Len3(F), 3)
=============================================================================
