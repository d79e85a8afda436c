------------------------------ MODULE MC_Power ------------------------------
EXTENDS Power, VTGen
CONSTANTS Ids, Volts, Lims, Mins, Pows, Fam
VARIABLES hist
Ops == IF port = EmptyFn THEN {[op |-> "reset"]}
       ELSE IF Fam = 1 THEN
         {[op |-> "conn", p |-> p, l |-> l] : p \in Ids, l \in Lims}
         \cup {[op |-> "connf", p |-> p, l |-> l, m |-> m, w |-> w] : p \in Ids, l \in Lims, m \in Mins, w \in Pows}
         \cup {[op |-> "close", p |-> p] : p \in Ids} \cup {[op |-> "get", p |-> p] : p \in Ids} \cup {[op |-> "tick"]}
         \cup {[op |-> "volt", p |-> p, x |-> x] : p \in Ids \cap DOMAIN port, x \in Volts}
         \cup {[op |-> "setp", p |-> p, x |-> x] : p \in Ids \cap DOMAIN port, x \in {0}}
       ELSE IF Cardinality(DOMAIN port) = 1 THEN
         {[op |-> "conn", p |-> 1, l |-> l] : l \in Lims}
         \cup {[op |-> "connf", p |-> 1, l |-> l, m |-> m, w |-> w] : l \in Lims, m \in Mins, w \in Pows}
       ELSE
         {[op |-> "volt", p |-> p, x |-> x] : p \in {1}, x \in Volts}
         \cup {[op |-> "upd", p |-> p] : p \in DOMAIN port}
         \cup {[op |-> o, p |-> p, x |-> x] : o \in {"setp", "subp", "addp"}, p \in {1}, x \in Pows}
         \cup {[op |-> "setm", p |-> p, x |-> x] : p \in {1}, x \in Mins}
         \cup {[op |-> "setl", p |-> p, x |-> x] : p \in {1}, x \in Lims}
         \cup {[op |-> "ini", p |-> p, m |-> m, w |-> w] : p \in {1}, m \in Mins, w \in Pows}
Small == \A p \in DOMAIN port : port[p].w <= 400
MCInit == Init /\ hist = <<>>
MCNext == \E e \in Ops : Do(e) /\ hist' = Append(hist, e) /\ (\A p \in DOMAIN port' : port'[p].w <= 320)
View == port
EmitStep == EmitHist(hist')
EmitLong == Len(hist) = GenLen => EmitHist(hist)
\* --- properties
\* a component that runs after an evaluation has its minimum voltage and draws less than its limit
OnOk == \A p \in DOMAIN port : p # 0 /\ port[p].in > 0 => port[p].on /\ port[p].v > 0
OffDraws0 == \A p \in DOMAIN port : ~port[p].on => port[p].in = 0
LastOp == IF hist = <<>> THEN [op |-> "none"] ELSE Last(hist)
Evaluated == LastOp.op \in {"volt", "upd"} =>
   LET p == port[LastOp.p] IN IF p.on THEN p.v >= p.m /\ 16 * p.w < p.l * p.v ELSE TRUE
Inv == OnOk /\ OffDraws0 /\ Evaluated
=============================================================================
