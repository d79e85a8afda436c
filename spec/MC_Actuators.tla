---------------------------- MODULE MC_Actuators ----------------------------
EXTENDS Actuators, VTGen
CONSTANTS Fam, Deep
VARIABLES hist
Wh == {[op |-> "wheel", pre |-> pre, tmax |-> 4, rmax |-> 10, axis |-> ax, dead4 |-> d, m |-> m, f0 |-> 8000, f1 |-> 10, stop |-> 20000, drv |-> TRUE, w0 |-> w0, ini |-> FALSE, byq |-> TRUE, jc |-> 0, fp |-> 1] :
       pre \in {1, 2}, d \in {0, 3, 4, 9}, m \in {0, 1, 3}, w0 \in {0, 60000}, ax \in {3}}
Th == {[op |-> "thr", pre |-> pre, mag |-> 5000, dir |-> dd1, dn |-> 1, pos |-> <<1, -2, 3>>, cg |-> <<0, 1, 1>>, dead4 |-> d, m |-> m, ini |-> FALSE] : pre \in {1, 2}, d \in {0, 4, 6}, m \in {0, 3}, dd1 \in {1, -2, 3}}
Ops == IF dd = 0 THEN {[op |-> "reset", dd |-> 4]}
       ELSE IF Len(hist) > Deep THEN {}
       ELSE IF Fam = 1 THEN (IF ws = <<>> THEN Wh ELSE {[op |-> "tick"]} \cup {[op |-> "wt", i |-> 1, T |-> t, body |-> b] : t \in {-2, 9}, b \in {FALSE}} \cup {[op |-> "wlim", i |-> 1, v |-> v] : v \in {4, 30}}
                             \cup {[op |-> "wdrv", i |-> 1, on |-> b] : b \in {~ws[1].drv}} \cup {[op |-> "wpow", i |-> 1, on |-> b] : b \in {~ws[1].on}})
       ELSE (IF ts = <<>> THEN Th ELSE {[op |-> "tick"]} \cup {[op |-> "duty", i |-> 1, v |-> v] : v \in {0, 300, 1000}} \cup {[op |-> "tpow", i |-> 1, on |-> b] : b \in {~ts[1].on}})
MCInit == Init /\ hist = <<>>
MCNext == \E e \in Ops : Do(e) /\ hist' = Append(hist, e)
View == <<dd, k, ws, ts, Len(hist)>>
EmitStep == EmitHist(hist')
EmitLong == Len(hist) = GenLen => EmitHist(hist)
\* --- properties
Top(s) == Acc(s.c.tmax)
\* commands are limited, wait the dead time, and the speed passes its limit by less than one run of full torque
Limited == \A i \in 1..Len(ws) : LET s == ws[i] IN
             /\ Abs(s.tgt) <= Top(s) /\ Abs(s.lag) <= Top(s) /\ \A j \in 1..Len(s.buf) : Abs(s.buf[j]) <= Top(s)
             /\ Len(s.buf) = s.c.dead4 \div 4 + 1
             /\ Abs(s.w) <= Max2(Rpm(s.c.rmax), Abs(s.c.w0)) + (Top(s) * s.c.pre) \div dd + 5
             /\ s.lim <= s.c.rmax
\* without power nothing is driven
NoPower == /\ \A i \in 1..Len(ws) : ~ws[i].on /\ hist[Len(hist)].op = "tick" /\ (k - 1) % Max2(ws[i].c.pre, 1) = 0 => ~ws[i].drv /\ ws[i].dv = 0
           /\ \A i \in 1..Len(ts) : ~ts[i].on /\ hist[Len(hist)].op = "tick" /\ (k - 1) % Max2(ts[i].c.pre, 1) = 0 => ts[i].f = 0
\* a coasting wheel never speeds up
CoastDown == \A i \in 1..Len(ws) : ~ws[i].drv /\ hist[Len(hist)].op = "tick" /\ ws[i].ran => Abs(ws[i].w) <= Abs(ws[i].w - ws[i].dv)
Inv == Limited /\ NoPower /\ CoastDown
=============================================================================
