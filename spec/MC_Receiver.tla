---------------------------- MODULE MC_Receiver ----------------------------
EXTENDS Receiver, VTGen
CONSTANTS Deep
VARIABLES hist
Five == << <<26560, 0, 0>>, <<18780, 18780, 0>>, <<0, 26560, 100>>, <<15334, 15334, 15334>>, <<0, -100, -26560>> >>
Rs == {[op |-> "reset", sats |-> Five, on |-> o, model |-> m, half |-> h, qc |-> c, pos |-> <<3, -2, 100>>, pre |-> pre, s |-> 30, pp |-> pre = 2] :
        o \in {TRUE, FALSE}, m \in {"CONE", "SIMPLE"}, h \in {50, 88, 140}, c \in {<<0, 0, 0, 1>>, <<0, 1, 0, 1>>, <<1, 2, -2, 4>>}, pre \in {1, 2}}
Steps == {[op |-> "at", p |-> p, v |-> <<10, 7500, -20>>, q |-> q] : p \in {<<7000, 300, 200>>, <<-4000, 5000, -3000>>}, q \in {<<0, 0, 0, 1>>, <<0, 1, 0, -1>>, <<1, 0, 3, 1>>}}
         \cup (IF set[1].pp THEN {[op |-> "pow", on |-> b] : b \in {TRUE, FALSE}} ELSE {})
Ops == IF Len(hist) = 0 THEN Rs ELSE IF Len(hist) > Deep THEN {} ELSE Steps
MCInit == Init /\ hist = <<>>
MCNext == \E e \in Ops : Do(e) /\ hist' = Append(hist, e)
View == <<set, tick, on, last.p, rx, pd, Len(hist)>>
EmitStep == EmitHist(hist')
EmitLong == Len(hist) = GenLen => EmitHist(hist)
\* a fix needs four satellites; a wider antenna sees no less
Inv == /\ (Is(set) /\ rx.utc > 0 /\ Cone /\ rx.vis = 1 => Cardinality({k \in 1..Len(rx.sees) : rx.sees[k] = 1}) >= 4)
       /\ \A k \in 1..Len(rx.sees) : rx.sees[k] = 1 => rx.dist[k] > 10000
=============================================================================
