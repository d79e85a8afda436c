---------------------------- MODULE MC_Mission ----------------------------
EXTENDS Mission, VTGen
CONSTANTS Ivals, Ends, Pres, Dists
VARIABLES hist, done
PreOf(z) == CASE z = 1 -> <<1>> [] z = 2 -> <<2>> [] z = 21 -> <<2, 1>> [] z = 31 -> <<3, 1>> [] z = 312 -> <<3, 1, 2>>
Base == [op |-> "reset", step |-> 2, end |-> 8, att |-> 2, orb |-> 2, comp |-> 2, log |-> 2, mass |-> 2, dist |-> FALSE,
         pre |-> <<1>>, f |-> << <<3, -1, 4>> >>, t |-> << <<1, 0, -2>> >>]
Ops == IF ~cfg.on THEN {[Base EXCEPT !.end = n, !.att = 2 * a, !.orb = 2 * o, !.comp = 2 * c, !.log = 2 * l, !.pre = p, !.dist = d,
                           !.f = [i \in 1..Len(p) |-> IF i = 1 THEN <<3, -1, 4>> ELSE <<-5, 2>>], !.t = [i \in 1..Len(p) |-> IF i = 1 THEN <<1, 0, -2>> ELSE <<7>>]] :
                           n \in Ends, a \in Ivals, o \in Ivals, c \in Ivals, l \in Ivals, p \in {PreOf(z) : z \in Pres}, d \in Dists}
       ELSE IF k < Total THEN {[op |-> "step"]} ELSE IF ~done THEN {[op |-> "end"]} ELSE {}
MCInit == Init /\ hist = <<>> /\ done = FALSE
MCNext == \E e \in Ops : Do(e) /\ hist' = Append(hist, e) /\ done' = (e.op = "end")
View == <<cfg, k, ticks, sc, rows, done>>
EmitStep == (done' => EmitHist(hist'))
EmitLong == TRUE
\* --- properties
Live == cfg.on
\* the log has one row for the start and one for each due step within the duration
LogOnce == Live => Len(rows) = 1 + Cardinality({j \in 1..k : LogDue(j) /\ j * cfg.step <= cfg.end})
RowTimes == Live => \A i \in 2..Len(rows) : rows[i][1] > rows[i - 1][1] /\ rows[i][1] <= cfg.end
\* momentum: with one rate for everything, velocity is the sum of the forces of all the steps, each applied exactly once
RECURSIVE SumF(_, _)
SumF(i, j) == IF j = 0 THEN 0 ELSE At(cfg.f[i], LET m == Max2(cfg.pre[i], 1) IN ((j - 1) \div m) * m) + j + SumF(i, j - 1)
Once == Live /\ ~cfg.dist /\ cfg.orb = cfg.step /\ cfg.comp = cfg.step => \A i \in 1..Len(sc) : sc[i].v = (SumF(i, k) * 128 * cfg.step) \div cfg.mass
Reached == Live => \A i \in 1..Len(sc) : sc[i].tO <= k * cfg.step /\ k * cfg.step - sc[i].tO < NSteps(cfg.orb) * cfg.step
Inv == LogOnce /\ RowTimes /\ Once /\ Reached
=============================================================================
