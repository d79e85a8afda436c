---------------------------- MODULE MC_SimTime ----------------------------
EXTENDS SimTime, VTGen
CONSTANTS Steps, Ivals, Ends, MaxSteps, MaxRestarts, Starts
VARIABLES hist, k, restarts
StartSet == {<<2019, 12, 31, 23, 59, 59000>>, <<2020, 2, 28, 23, 59, 58500>>, <<2021, 2, 28, 12, 0, 0>>, <<2000, 1, 1, 12, 0, 0>>}
Ops == IF ~cfg.on THEN {[op |-> "reset", step |-> s, end |-> n, att |-> Max2(a * s - x, s), orb |-> Max2(o * s, s), th |-> s, comp |-> Max2(c * s, s), log |-> Max2(l * s, s), start |-> st] :
                           s \in Steps, n \in Ends, a \in Ivals, o \in Ivals, c \in Ivals, l \in Ivals, x \in {0, 1}, st \in {CHOOSE q \in StartSet : TRUE}}
       ELSE (IF k < MaxSteps THEN {[op |-> "step"]} ELSE {}) \cup (IF restarts < MaxRestarts /\ k > 0 THEN {[op |-> "restart"]} ELSE {})
MCInit == Init /\ hist = <<>> /\ k = 0 /\ restarts = 0
MCNext == \E e \in Ops : /\ Do(e) /\ hist' = Append(hist, e)
                         /\ k' = IF e.op = "step" THEN k + 1 ELSE 0
                         /\ restarts' = IF e.op = "restart" THEN restarts + 1 ELSE restarts
View == <<cfg, el, phase, k, restarts>>
EmitStep == EmitHist(hist')
EmitLong == Len(hist) = GenLen => EmitHist(hist)
Stepped == "run" \in DOMAIN out
\* the closed form of what the counters realise
Rate == Stepped => \A i \in 1..4 : out.fl[i] = (LET n == N(<<"att", "orb", "th", "comp">>[i]) IN IF n = 1 THEN TRUE ELSE (k + 1) % n = 0)
LogRate == Stepped => out.log = (k % N("log") = 0)
Elapsed == el = k * cfg.step \/ ~cfg.on
Finish == Stepped => out.fin = (k * cfg.step > cfg.end)
\* the odometer calendar agrees with the day-number formula
CalLin == cfg.on => DiffMs(DayNum(cal), cal.ms, DayNum(cfg.start), cfg.start.ms) = el * 125 \/ el * 125 > 86400000
Inv == cfg.on => Rate /\ LogRate /\ Elapsed /\ Finish /\ CalLin
=============================================================================
