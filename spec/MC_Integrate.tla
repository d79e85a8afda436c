----------------------------- MODULE MC_Integrate -----------------------------
EXTENDS Integrate, VTGen
CONSTANTS Deep
VARIABLES hist
R(m, g, h, t, pc, ch) == [op |-> "reset", m |-> m, mgr |-> g, H |-> h, T |-> t, pc |-> pc, ch |-> ch, C |-> 65, C2 |-> 1400]
Pc(m) == IF m \in {"rkf", "dp5"} THEN {<<1, -2, 3, 1, 2>>, <<0, 0, 0, 4, 0>>} ELSE {<<1, -2, 3, 1, 0>>}
Ch(m) == IF m \in {"rkf", "dp5"} THEN {<<1, -1, 2, 0, 3, -4>>, <<0, 2, -1, 3, 5, 0>>} ELSE {<<0, 2, -1, 3, 5, 0>>}
Resets == UNION {{R(m, g, h, t, pc, ch) : g \in IF m = "ode" THEN {FALSE} ELSE BOOLEAN, h \in {1, 2, 4}, t \in {0, 6}, pc \in Pc(m), ch \in Ch(m)} : m \in {"rk4", "rkf", "dp5", "ode"}}
Ctl == {[op |-> "ctl", m |-> m, a |-> a, H |-> h, tol |-> t] : m \in {"rkf", "dp5"}, a \in {0, 3}, h \in {2, 4}, t \in {-6, -8}}
Ins == {[op |-> "in", u |-> u] : u \in {0, 10, -7}}
Ops == IF hist = <<>> THEN Resets ELSE IF Len(hist) > Deep THEN {}
       ELSE IF Len(hist) = 1 THEN {[op |-> "step", n |-> n] : n \in {1, 2}} \cup (IF p.T = 0 /\ p.m = "ode" /\ H = 1 THEN Ctl \cup {[op |-> "lag", h |-> h, c |-> c, g |-> g] : h \in {0, 1, 10}, c \in {0, 5, 20}, g \in {10, 25}} ELSE {})
       ELSE IF hist[2].op = "lag" THEN Ins
       ELSE IF hist[2].op = "ctl" THEN {}
       ELSE (IF T + H <= 20 THEN {[op |-> "step", n |-> 1]} ELSE {}) \cup {[op |-> "width", H |-> h] : h \in {1, 2, 4} \ {H}}
            \cup (IF p.pc[5] = 0 /\ p.ch[6] = 0 /\ High THEN {[op |-> "mid", s |-> s] : s \in CASE last = 4 -> 0..4 [] last = 2 -> {0, 2, 4} [] OTHER -> {0, 4}} ELSE {})
MCInit == Init /\ hist = <<>>
MCNext == \E e \in Ops : Do(e) /\ hist' = Append(hist, e)
View == <<p, T, H, last, tol, y, lag, out, hist>>
EmitStep == EmitHist(hist')
EmitLong == Len(hist) = GenLen => EmitHist(hist)
\* --- the exact solutions: the chain is a polynomial like any other; moving on twice is moving on once; bounds of the lag
Inv == /\ p # None => /\ \A d \in 0..20 : Link(<<0, 3, 0, 0, 0, 0>>, 1, d) = Poly(<<3, 0, 0, 0, 0>>, d) /\ Near(Link(<<0, 0, 2, 0, 0, 0>>, 1, d), Poly(<<0, 2, 0, 0, 0>>, d), 1)
                      /\ Link(<<1, 2, 3, 4, 5, 6>>, 6, T) = 6000000
                      /\ Near(RDiv(Rec1(p.C, T), 10000) * RDiv(Rec1(p.C, T), 10000), Rec2(p.C, T), 60000)
       /\ (lag[1] + lag[2] > 0 => Abs(y) <= 100 * lag[3] * 10 + 1)
=============================================================================
