----------------------------- MODULE MC_Sensors -----------------------------
EXTENDS Sensors, VTGen
CONSTANTS Fam, Deep
VARIABLES hist
I9 == <<4, 0, 0, 0, 4, 0, 0, 0, 4>>
S9 == <<8, 0, 0, 0, 2, 0, 4, 0, -4>>
Gy == {[op |-> "add", k |-> "gyro", pre |-> pre, q |-> q, ini |-> TRUE, pp |-> pp, s |-> s, nos |-> FALSE, bias |-> b, rc |-> l[1], rz |-> l[2]] :
       pre \in {1, 2}, pp \in {TRUE}, q \in {Id, <<0, 1, 0, 0>>}, s \in {I9, S9}, b \in {Z3, <<3, -3, 0>>}, l \in {<<10, 20>>, <<10, 5>>, <<30, 31>>}}
Ma == {[op |-> "add", k |-> "mag", pre |-> 1, q |-> q, ini |-> TRUE, pp |-> TRUE, s |-> s, nos |-> FALSE, bias |-> b, rc |-> l[1], rz |-> l[2]] :
       q \in {Id, <<0, 1, 0, 0>>}, s \in {I9, S9}, b \in {Z3, <<300, -300, 0>>}, l \in {<<2000, 3000>>, <<1500, 1000>>, <<9000, 9100>>}}
Mt == {[op |-> "add", k |-> "mtq", pre |-> pre, q |-> q, ini |-> ini, pp |-> TRUE, s |-> s, hi |-> <<2, 2, 1>>, lo |-> <<-2, -2, -3>>, bias |-> b] :
       pre \in {1, 2}, q \in {<<0, 0, 1, 0>>}, ini \in {TRUE}, s \in {I9, S9}, b \in {Z3, <<1, -1, 2>>}}
St == {[op |-> "add", k |-> "stt", pre |-> pre, q |-> <<0, 0, 1, 0>>, ini |-> ini, pp |-> TRUE, delay4 |-> dl, int4 |-> iv, sa |-> 30, ea |-> 20, ma |-> 10, rl |-> 2] :
       pre \in {1, 2}, ini \in {TRUE}, dl \in {0, 4, 7, 12}, iv \in {4, 9, 12}}
Sn == {[op |-> "add", k |-> "sun", pre |-> 1, q |-> q, ini |-> TRUE, pp |-> TRUE, fov |-> f, pct |-> p] : q \in {Id, <<1, 1, 1, 1>>}, f \in {30, 60}, p \in {0, 50}}
Tl == {[op |-> "add", k |-> "tel", pre |-> 1, q |-> q, ini |-> TRUE, pp |-> FALSE, cat |-> <<<<11, -10, 3, 0, 0>>, <<12, 15, 4, 0, 3>>, <<13, 30, 0, 1, 0>>, <<14, 31, 2, 1, 2>>>>, nl |-> nl, mm |-> m, stars |-> 2, sa |-> 40, ea |-> 30, ma |-> 20, nx |-> 100, ny |-> 60, fx |-> 40, fy |-> 30] :
       q \in {Id, <<1, 1, 1, 1>>}, nl \in {TRUE, FALSE}, m \in {-20, 30}}
Gn == {[op |-> "add", k |-> "gnss", pre |-> 1, q |-> q, ini |-> TRUE, pp |-> TRUE] : q \in {Id, <<1, 0, 0, 0>>}}
Dirs == {<<1, 0, 0>>, <<0, 0, 1>>, <<-2, 1, 2>>}
Tk == {[op |-> "tick"]}
At(q) == [op |-> "att", q |-> q]
Rt(w) == [op |-> "rate", w |-> w]
Pw == {[op |-> "pow", i |-> 1, on |-> b] : b \in {~ds[1].on}}
Bd(b, d) == {[op |-> "body", b |-> b, u |-> u, d |-> d] : u \in {x \in Dirs : x # body[b].u}}
Cm(i) == {[op |-> "cmd", i |-> i, m |-> m] : m \in {<<4, -4, 4>>, <<20, -20, 7>>, <<-3, 9, -20>>}}
Itf == {[op |-> "itf", i |-> 1, j |-> j, c |-> c] : j \in {2}, c \in {<<<<100, 0, 0, 0, 100, 0, 20, 0, 100>>>>, <<<<100, 0, 0, 0, 100, 0, 0, 0, 100>>, <<0, 50, 0, 0, 50, 0, 10, 0, 0>>>>}}
Ops == IF k < 0 THEN {[op |-> "reset", dd |-> 4, pos |-> <<1, 2, 2>>, alt |-> 8]}
       ELSE IF Len(hist) > Deep THEN {}
       ELSE CASE Fam = 1 -> IF ds = <<>> THEN Gy \cup Ma ELSE Tk \cup Pw \cup (IF ds[1].c.k = "gyro" THEN {Rt(w) : w \in {<<9, -11, 10>>, <<-25, 4, 40>>, <<12, -12, 0>>, <<1, 1, 7>>}} ELSE {At(q) : q \in {Id, <<1, 1, 1, 1>>, <<0, 3, 0, 4>>} \ {att}})
              [] Fam = 2 -> IF ds = <<>> THEN St ELSE Tk \cup {At(q) : q \in {Id, <<1, 1, 1, 1>>, <<0, 3, 0, 4>>} \ {att}} \cup (IF Len(hist) > 3 THEN Pw ELSE {})
              [] Fam = 3 -> IF ds = <<>> THEN Mt ELSE Tk \cup Pw \cup Cm(1)
              [] Fam = 4 -> CASE Len(ds) = 0 -> {x \in Ma : x.q = Id /\ x.s = I9 /\ x.rc = 9000} [] Len(ds) = 1 -> {x \in Mt : x.pre = 1 /\ x.s = I9} [] itf = <<>> -> Itf
                              [] OTHER -> Tk \cup Cm(2) \cup {[op |-> "inter"]}
              [] Fam = 5 -> IF ds = <<>> THEN {x \in St : x.pre = 1 /\ x.delay4 = 4 /\ x.int4 = 4} ELSE Tk \cup Bd("SUN", 2) \cup Bd("EARTH", 25) \cup Bd("MOON", 3) \cup {Rt(w) : w \in {<<0, 0, 10>>, <<20, 20, 20>>}}
              [] Fam = 6 -> IF ds = <<>> THEN Sn \cup Tl \cup Gn ELSE Tk \cup Bd("SUN", 2) \cup Bd("EARTH", 25) \cup {At(q) : q \in {<<1, 1, 1, 1>>, <<0, 3, 0, 4>>} \ {att}}
MCInit == Init /\ hist = <<>>
MCNext == \E e \in Ops : Do(e) /\ hist' = Append(hist, e)
View == <<k, att, rate, body, ds, itf, Len(hist)>>
EmitStep == EmitHist(hist')
EmitLong == Len(hist) = GenLen => EmitHist(hist)
\* --- properties
LastOp == IF hist = <<>> THEN "" ELSE hist[Len(hist)].op
\* a reading never exceeds the constant range, and is zero beyond the second
Saturated == \A i \in 1..Len(ds) : ds[i].c.k \in {"gyro", "mag"} => \A j \in 1..3 :
               LET u == IF ds[i].c.k = "gyro" THEN 100 ELSE 1 v == Clip(ds[i].raw[j], Rc(ds[i].c) * u, Rz(ds[i].c) * u) IN
               Abs(v) <= Rc(ds[i].c) * u /\ (Abs(ds[i].raw[j]) >= Rz(ds[i].c) * u => v = 0) /\ (Abs(ds[i].raw[j]) < Rc(ds[i].c) * u /\ Rz(ds[i].c) >= Rc(ds[i].c) => v = ds[i].raw[j])
\* the moment stays within limits plus bias whatever was commanded, and repeating a run repeats the output
Bounded == \A i \in 1..Len(ds) : ds[i].c.k = "mtq" => LET s == ds[i] IN
             /\ (s.c.s = I9 => \A j \in 1..3 : s.m[j] <= Max2(0, s.c.hi[j] * 100 + s.c.bias[j] * 25) /\ s.m[j] >= Min2(0, s.c.lo[j] * 100 + s.c.bias[j] * 25))
             /\ (~s.on /\ LastOp = "tick" /\ (k - 1) % Max2(s.c.pre, 1) = 0 => s.m = Z3 /\ s.t = Z3)
             /\ Abs(Dot(s.b, s.t)) <= 60 * (Abs(s.b[1]) + Abs(s.b[2]) + Abs(s.b[3]) + 1)      \* torque is normal to the moment (up to rounding)
\* the quaternion reported is one the spacecraft had, no earlier than the delay and one interval ago
Fresh == \A i \in 1..Len(ds) : ds[i].c.k = "stt" => Len(ds[i].buf) <= Delay(ds[i].c) + 1 /\ N2(ds[i].v) \in {1, 4, 16, 25, 100, 625}
\* the exclusion answer is certain when the body is far from the edge
Excl == \A i \in 1..Len(ds) : ds[i].c.k = "stt" /\ Fam = 5 /\ LastOp = "tick" => ds[i].err # 2 /\ (InC(ds[i].c.q, body.SUN.u)[1] = Den(ds[i].c.q, body.SUN.u) => ds[i].err = 1)
Inv == Saturated /\ Bounded /\ Fresh /\ Excl
=============================================================================
