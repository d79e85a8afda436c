----------------------------- MODULE MC_Disturb -----------------------------
EXTENDS Disturb, VTGen
CONSTANTS Deep
VARIABLES hist
Face(n, p, a, rf, sp, as) == [n |-> n, p |-> p, a |-> a, rf |-> rf, sp |-> sp, as |-> as]
F1 == Face(<<0, 0, 1>>, <<10, 20, 50>>, 100, 40, 30, 0)
F2 == Face(<<1, 2, 2>>, <<-30, 0, 20>>, 50, 100, 100, 40)
F3 == Face(<<-1, 0, 0>>, <<-50, 0, 0>>, 200, 0, 0, 100)
All == <<"SOLAR_RADIATION_PRESSURE_DISTURBANCE", "AIR_DRAG", "GRAVITY_GRADIENT", "MAGNETIC_DISTURBANCE", "THIRD_BODY_GRAVITY">>
Base == [op |-> "reset", on |-> All, faces |-> <<F1, F2, F3>>, raw |-> FALSE, cog |-> <<2, -1, 3>>, in |-> <<10, 20, 30, 1, -2, 3>>, m |-> <<100, -200, 300>>, noise |-> Z3,
         tw |-> 300, tm |-> 800, mw |-> 18, third |-> <<"SUN", "MOON">>, mu |-> 0]
Rs == {[Base EXCEPT !.faces = f, !.raw = w] : f \in {<<>>, <<F1>>, <<F2>>, <<F3>>, <<F1, F2, F3>>}, w \in {TRUE, FALSE}}
      \cup {[Base EXCEPT !.on = IF i = 0 THEN <<>> ELSE <<All[i]>>] : i \in 0..5}
      \cup {[Base EXCEPT !.noise = n, !.mu = u, !.third = t, !.tw = w] : n \in {Z3, <<200, 0, 0>>}, u \in {0, 5}, t \in {<<>>, <<"MOON">>}, w \in {250, 900}}
At == [op |-> "at", p |-> <<6800, 100, -500>>, v |-> <<1000, 5000, 5500>>, q |-> Id, sun |-> <<1000, -900, 400>>, moon |-> <<3, 1, 1>>, k |-> 100000]
Ats == {[At EXCEPT !.q = q] : q \in {Id, <<1, 0, 0, 1>>, <<1, 2, -2, 4>>}} \cup {[At EXCEPT !.sun = s] : s \in {<<0, 0, 1400>>, <<500, 1000, 1000>>, <<-1400, 0, 0>>}}
       \cup {[At EXCEPT !.k = 10, !.sun = <<5000, 3000, -2000>>, !.moon = m] : m \in {<<-1500, 1200, 400>>, <<0, 0, 3000>>}} \cup {[At EXCEPT !.p = <<0, -4500, 5400>>, !.v = <<7500, 100, 0>>]}
Ops == IF ~Is(sc) THEN Rs ELSE IF Len(hist) > Deep THEN {} ELSE
       {[x EXCEPT !.op = "at"] : x \in {[y EXCEPT !.k = y.k] : y \in Ats}} \cup {[op |-> "set", cog |-> <<-5, 7, 11>>], [op |-> "set", area |-> 300], [op |-> "set", in |-> <<30, 10, 20, 0, 0, 4>>]}
Full(e) == IF e.op # "at" THEN e ELSE [op |-> "at", p |-> e.p, v |-> e.v, q |-> e.q, sun |-> e.sun, moon |-> e.moon, k |-> e.k, mu |-> IF hist = <<>> THEN 0 ELSE hist[1].mu]
MCInit == Init /\ hist = <<>>
MCNext == \E x \in Ops : LET e == Full(x) IN Do(e) /\ hist' = Append(hist, e)
View == <<sc, out, hist>>
EmitStep == EmitHist(hist')
EmitLong == Len(hist) = GenLen => EmitHist(hist)
\* --- properties of the model, with every face the box could have and light or air from many sides
Us == {<<10000, 0, 0>>, <<0, 0, 10000>>, <<0, 0, -10000>>, <<3333, 6667, 6667>>, <<-6667, 3333, 6667>>, <<-3333, -6667, -6667>>, <<8000, 0, 6000>>}
Sane == Is(sc) /\ hist = <<Last(hist)>> => \A i \in 1..Len(sc.faces), u \in Us : LET f == sc.faces[i] l == Light(f, u) b == Breeze(f, u, 700, 8000) c == CosTo(f, u) IN
   /\ Dot(l, u) <= 0 /\ Dot(b, u) <= 0                                     \* both push away from where they come
   /\ Abs(TDiv(Dot(l, u), 10000)) <= 2 * Max2(c, 0) + 20                   \* never more than everything thrown straight back
   /\ (c <= 0 <=> l = Z3) /\ (c <= 0 <=> b = Z3)
   /\ (f.rf = 0 => VN(Crs(l, u), Z3, 300000))                              \* a black face is pushed along the light
Inv == Sane
=============================================================================
