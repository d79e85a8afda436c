---------------------------- MODULE MC_Relative ----------------------------
EXTENDS Relative, VTGen
CONSTANTS Fam, Deep
VARIABLES hist
S(pp, vv, qq) == [p |-> pp, v |-> vv, q |-> qq]
Sps == {<<S(<<7, 1, 0>>, <<-1, 6, 4>>, Id), S(<<7, 2, 1>>, <<-1, 6, 3>>, <<1, 2, 2, 4>>), S(<<-3, 9, 2>>, <<-6, -2, 1>>, <<0, 0, 1, 1>>)>>}
Puts == {[op |-> "put", id |-> 1, p |-> <<8, -2, 3>>, v |-> <<2, 5, -4>>, q |-> <<1, 1, 1, 1>>]}
Hills == {[op |-> "reset", hill |-> TRUE, how |-> h, P |-> 7200, i |-> 97, o |-> 200, u |-> uu, x |-> x, v |-> v, step |-> 20] :
          h \in {"rk4", "stm"}, uu \in {0, 130}, x \in {<<300, 0, 0>>, <<0, -400, 100>>}, v \in {Z3, <<0, -600, 0>>, <<100, 50, -200>>}}
Ops == IF Fam = 1 THEN (IF Len(sp) = 0 THEN {[op |-> "reset", hill |-> FALSE, sp |-> x] : x \in Sps} ELSE IF Len(hist) > Deep THEN {} ELSE
         {[op |-> "reg", id |-> i] : i \in (0..2) \ reg} \cup {[op |-> "rem", id |-> i] : i \in reg} \cup {x \in Puts : sp[2].p # x.p} \cup {[op |-> "upd"]})
       ELSE IF ~Is(hl) THEN Hills ELSE IF Len(hist) > Deep THEN {} ELSE {[op |-> "go", dt |-> d, n |-> n] : d \in {20000, 50000, 1000000}, n \in {1, 30}}
MCInit == Init /\ hist = <<>>
MCNext == \E e \in Ops : Do(e) /\ hist' = Append(hist, e)
View == <<sp, reg, hl, out, Len(hist)>>
EmitStep == EmitHist(hist')
EmitLong == Len(hist) = GenLen => EmitHist(hist)
\* --- properties of the model
\* the relative motion solves Hill's equations: the solution continues from any of its points, and 2 x + v2 / 1 (the drift) is kept
HillOk == Is(hl) =>
   LET x1 == HP(hl.x, hl.v, hl.t) v1 == HV(hl.x, hl.v, hl.t) IN
   /\ Near(2 * x1[1] + v1[2], 2 * hl.x[1] + hl.v[2], 6 + (Mx(x1) + Mx(v1)) \div 2000)
   /\ VN(HP(x1, v1, 40000), HP(hl.x, hl.v, hl.t + 40000), 10 + (Mx(x1) + Mx(v1)) \div 300)
   \* one metre per radian is the rate of a metre: the velocity is that of the position
   /\ LET z == HP(hl.x, hl.v, hl.t + 5730) y == HP(hl.x, hl.v, IF hl.t >= 5730 THEN hl.t - 5730 ELSE 0) IN hl.t >= 5730 => VN([i \in 1..3 |-> 5 * (z[i] - y[i])], v1, 15 + (Mx(x1) + Mx(v1)) \div 100)
Inv == HillOk
=============================================================================
