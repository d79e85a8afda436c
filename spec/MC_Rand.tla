------------------------------ MODULE MC_Rand ------------------------------
EXTENDS Rand, VTGen
CONSTANTS Deep
VARIABLES hist
Seeds == {0, 1, -5, 127773, 2147483646}
New(op, ss) == {[op |-> op, how |-> h, s |-> s] : h \in {"new", "seed"}, s \in ss} \cup {[op |-> op, how |-> "def", s |-> 1]}
Ops == IF Len(hist) = 0 THEN {[op |-> "reset"]}
       ELSE IF Len(hist) > Deep THEN {}
       ELSE New("lnew", Seeds) \cup {[op |-> "lnext", n |-> n] : n \in {1, 3}}
            \cup (IF Len(hist) < 3 \/ bag # <<>> THEN New("snew", {0, 7}) \cup (IF bag # <<>> THEN {[op |-> "snext", n |-> 5]} ELSE {}) ELSE {})
            \cup New("gnew", {0, 9}) \cup (IF g.key # "none" THEN {[op |-> "gnext", n |-> 2]} ELSE {})
            \cup {[op |-> "nnew", how |-> h, s |-> 3, avg |-> 2, sd |-> sd] : h \in {"new", "seed", "def"}, sd \in {0, 2}} \cup (IF nr # <<>> THEN {[op |-> "nnext", n |-> n] : n \in {1, 2}} \cup {[op |-> "nset", avg |-> -1, sd |-> 5]} ELSE {})
MCInit == Init /\ hist = <<>>
MCNext == \E e \in Ops : Do(e) /\ hist' = Append(hist, e)
View == <<x, bag, g, nr, Len(hist)>>
EmitStep == EmitHist(hist')
EmitLong == Len(hist) = GenLen => EmitHist(hist)
\* the generator never gets stuck at zero, and stays in range
Inv == x > 0 /\ x < M /\ (bag # <<>> => \A i \in 1..32 : bag[1].tab[i] > 0 /\ bag[1].tab[i] < M)
=============================================================================
