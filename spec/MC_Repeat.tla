----------------------------- MODULE MC_Repeat -----------------------------
EXTENDS Repeat, VTGen
CONSTANTS Deep
VARIABLES hist
Runs == {[op |-> "run", d |-> d, sc |-> s, n |-> 2, log |-> 1] : d \in {0, 2}, s \in {<<0>>, <<5>>, <<5, 0>>}}
Ops == IF Len(hist) = 0 THEN {[op |-> "reset"]}
       ELSE IF Len(hist) > Deep THEN {}
       ELSE Runs \cup (IF proc = <<>> THEN {} ELSE {[op |-> "new"]})
MCInit == Init /\ hist = <<>>
MCNext == \E e \in Ops : Do(e) /\ hist' = Append(hist, e)
View == <<DOMAIN memo, proc, Len(hist)>>
EmitStep == EmitHist(hist')
EmitLong == Len(hist) = GenLen => EmitHist(hist)
\* a process knows no more than what was ever run
Inv == \A i \in 1..Len(proc) : \A j \in 1..Len(proc[i][2]) : <<proc[i][2][j], proc[i][1]>> \in DOMAIN memo
=============================================================================
