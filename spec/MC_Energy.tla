----------------------------- MODULE MC_Energy -----------------------------
EXTENDS Energy, VTGen
CONSTANTS Cfgs, MaxN
VARIABLES hist
P(kk, v, n) == [k |-> kk, nv |-> v, nn |-> n, pre |-> 1]
Rows2 == <<[t |-> 10, d |-> <<0, 3, 4>>, n |-> 5, flag |-> 1, p |-> 12000], [t |-> 30, d |-> <<1, 0, 0>>, n |-> 1, flag |-> 1, p |-> 2000], [t |-> 50, d |-> <<1, 0, 0>>, n |-> 1, flag |-> 0, p |-> 30000]>>
Base == [op |-> "reset", saps |-> <<P(40000, <<1, 0, 0>>, 1), P(20000, <<0, 3, 4>>, 5)>>, step |-> 10, bpre |-> 1, ppre |-> 1, order |-> <<1, 2, 10, 11>>,
         ser |-> 4, par |-> 2, cap |-> 30, c0 |-> 4100, c1 |-> -300, c2 |-> 0, cc |-> 1200, cv |-> 168000, res |-> 150, dod |-> 20000000, scen |-> FALSE, rows |-> Rows2, ini |-> TRUE]
CfgOf(z) == CASE z = 1 -> Base
              [] z = 2 -> [Base EXCEPT !.cc = 6000]                           \* voltage limited
              [] z = 3 -> [Base EXCEPT !.scen = TRUE, !.order = <<11, 10, 2, 1>>]
              [] z = 4 -> [Base EXCEPT !.saps = <<P(9000, <<1, 0, 0>>, 1)>>, !.order = <<1, 10, 11>>, !.ppre = 2, !.bpre = 3, !.ini = FALSE, !.c2 = -2]
              [] z = 5 -> [Base EXCEPT !.dod = 0, !.cv = 160000]                      \* above the charge voltage
Ops == IF ~cfg.on THEN {CfgOf(z) : z \in Cfgs}
       ELSE IF k < MaxN THEN {[op |-> "tick"]} \cup
         (IF ~cfg.scen /\ hist[Len(hist)].op # "env" THEN {[op |-> "env", s |-> s[1], n |-> s[2], d |-> d, ecl |-> ec] : s \in {<<<<1, 0, 0>>, 1>>, <<<<0, 3, 4>>, 5>>, <<<<-2, 1, 2>>, 3>>}, d \in {2}, ec \in BOOLEAN} ELSE {})
       ELSE {}
MCInit == Init /\ hist = <<>>
MCNext == \E e \in Ops : Do(e) /\ hist' = Append(hist, e)
View == <<cfg, k, env, sap, dod, vb, cur, bus, cons>>
EmitStep == (k' = MaxN /\ hist'[Len(hist')].op = "tick") => EmitHist(hist')
EmitLong == Len(hist) = GenLen => EmitHist(hist)
\* --- properties
Live == cfg.on
NoNegative == \A i \in 1..Len(sap) : sap[i] >= 0
\* charging respects both limits
Limits == Live /\ cur > 0 => cur <= cfg.cc /\ bus <= cfg.cv + 2
\* with no light the battery discharges
DarkRun == Live /\ cur > 0 => SumSeq(sap) > 0 \/ hist[Len(hist)].op = "env" \/ cfg.order[1] = 11
Inv == NoNegative /\ Limits
=============================================================================
