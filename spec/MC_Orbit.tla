----------------------------- MODULE MC_Orbit -----------------------------
EXTENDS Orbit, VTGen
CONSTANTS Fam, Deep
VARIABLES hist
Hows == IF Fam = 1 THEN {"direct", "pv", "oe", "default"} ELSE {"direct"}
Kinds == IF Fam = 1 THEN {"kepler", "rk4", "encke", "other"} ELSE {"rk4", "encke", "kepler"}
Els == IF Fam = 1 THEN {<<0, 0, 0, 0>>, <<20, 97, 200, 300>>, <<60, 63, 100, 30>>} ELSE {<<10, 51, 300, 200>>}
Rs == {[op |-> "reset", kind |-> k, how |-> h, a |-> 30000, P |-> 7200, e |-> x[1], i |-> x[2], o |-> x[3], w |-> x[4], m |-> mm, step |-> IF mm = 50000 THEN 4000 ELSE 9800, tol |-> 100, on |-> o] :
       k \in Kinds, h \in Hows, x \in Els, mm \in {50000, 250000}, o \in (IF Fam = 1 THEN {TRUE, FALSE} ELSE {TRUE})}
Gos == {[op |-> "go", dt |-> d, n |-> n] : d \in {10000, 20000}, n \in (IF Fam = 1 THEN {1, 60} ELSE {1})}
Ops == IF ~Is(el) THEN {x \in Rs : (x.kind = "other" => x.how # "direct") /\ (x.e = 60 => x.kind = "kepler")} ELSE IF Len(hist) > Deep THEN {} ELSE
       Gos \cup (IF Fam = 1 THEN {[op |-> "power", on |-> ~on], [op |-> "att", q |-> <<1, 2, 2, 4>>]}
                 ELSE {x \in {[op |-> "acc", a |-> y] : y \in {Z3, <<20000, -10000, 5000>>}} : x.a # acc}
                      \cup {[op |-> "add", f |-> f, a |-> <<0, 8000, 12000>>, mass |-> mm, q |-> <<1, 2, 2, 4>>] : f \in {"accel", "force_i", "force_b"}, mm \in {4}})
MCInit == Init /\ hist = <<>>
MCNext == \E e \in Ops : Do(e) /\ hist' = Append(hist, e)
View == <<el, m, lag, on, free, acc, q, p, v, out, Len(hist)>>
EmitStep == EmitHist(hist')
EmitLong == Len(hist) = GenLen => EmitHist(hist)
\* --- properties of the model
\* the orbit of the model keeps the laws: vis viva, areas, and the shape of the ellipse
Laws == Is(el) /\ ~free =>
   LET s == Where(el, m) E == Ecc(el.e, m) r == 10000 - TDiv(el.e * CosF(E), 1000) IN
   /\ Near(N2(s.p) \div 10000, (r * r) \div 10000, 12)
   /\ Near(N2(s.v) \div 10000, (20000 * 10000) \div r - 10000, 60)
   /\ VN(Crs([i \in 1..3 |-> s.p[i]], [i \in 1..3 |-> TDiv(s.v[i], 2)]), [i \in 1..3 |-> 5000 * Normal(el)[i]], 90000)
\* a short step of the equation of motion agrees with the orbit
Agree == Is(el) => LET s == Where(el, m) k == Kick(Up(s.p), Up(s.v), Z3, 2000) z == Where(el, (m + 1146) % 360000) IN
   el.e <= 30 => VN(k.p, Up(z.p), 600) /\ VN(k.v, Up(z.v), 900)
Inv == Laws /\ Agree
=============================================================================
