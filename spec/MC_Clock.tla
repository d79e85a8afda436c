------------------------------ MODULE MC_Clock ------------------------------
EXTENDS Clock, VTGen
CONSTANTS Ids, Pres, MaxTick, MaxReg, Periods
VARIABLES hist, prevreg, prevcomp, prevpower, prevcount
Ops == IF ~made THEN {[op |-> "reset", n |-> k] : k \in Periods}
       ELSE {[op |-> "port", p |-> 1, on |-> b] : b \in BOOLEAN}
            \cup {[op |-> "new", c |-> i, pre |-> a, fpre |-> b, fast |-> f, p |-> p] :
                    i \in {Cardinality(DOMAIN comp) + 1} \cap Ids, a \in Pres, b \in Pres, f \in BOOLEAN, p \in DOMAIN power}
            \cup (IF Len(reg) < MaxReg THEN {[op |-> "copy", c |-> i, d |-> j] : i \in DOMAIN comp, j \in Ids \ DOMAIN comp}
                                            \cup {[op |-> "reg", c |-> i] : i \in DOMAIN comp} ELSE {})
            \cup {[op |-> "del", c |-> i] : i \in DOMAIN comp}
            \cup {[op |-> "unreg", c |-> i] : i \in DOMAIN comp}
            \cup {[op |-> "fast", c |-> i, fast |-> b] : i \in DOMAIN comp, b \in BOOLEAN}
            \cup (IF count < MaxTick THEN {[op |-> "tick"], [op |-> "step"]} ELSE {[op |-> "clear"]})
MCInit == Init /\ hist = <<>> /\ prevreg = <<>> /\ prevcomp = EmptyFn /\ prevpower = EmptyFn /\ prevcount = 0
MCNext == \E e \in Ops : /\ Do(e) /\ hist' = Append(hist, e)
                         /\ prevreg' = reg /\ prevcomp' = comp /\ prevpower' = power /\ prevcount' = count
View == <<made, comp, reg, count, power, n, c>>
\* simulation: at most one component is created per history step budget; bound the size
EmitStep == EmitHist(hist')
EmitLong == Len(hist) = GenLen => EmitHist(hist)

\* --- properties, evaluated on the calls of the last tick
HasCalls == "calls" \in DOMAIN out
CallSet == IF HasCalls THEN SeqRange(out.calls) ELSE {}
OnlyLive == \A k \in CallSet : k[1] \in DOMAIN comp
PowerGate == \A k \in CallSet : (k[2] \in {1, 3} => prevpower[prevcomp[k[1]].port]) /\ (k[2] = 2 => ~prevpower[prevcomp[k[1]].port])
Prescaled == \A k \in CallSet : k[2] = 1 => prevcount % prevcomp[k[1]].pre = 0 /\ k[3] = prevcount
NoneMissed == HasCalls /\ out.calls # <<>> => \A x \in SeqRange(prevreg) : prevcount % prevcomp[x].pre = 0 => \E k \in CallSet : k[1] = x
InOrder == HasCalls => \A i, j \in 1..Len(out.calls) : i < j /\ out.calls[i][1] # out.calls[j][1] /\ Cardinality(SeqRange(prevreg)) = Len(prevreg) =>
              (CHOOSE a \in 1..Len(prevreg) : prevreg[a] = out.calls[i][1]) < (CHOOSE b \in 1..Len(prevreg) : prevreg[b] = out.calls[j][1])
RegLive == SeqRange(reg) \subseteq DOMAIN comp
Inv == OnlyLive /\ PowerGate /\ Prescaled /\ NoneMissed /\ InOrder /\ RegLive
=============================================================================
