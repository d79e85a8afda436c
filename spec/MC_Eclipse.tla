----------------------------- MODULE MC_Eclipse -----------------------------
EXTENDS Eclipse, VTGen
CONSTANTS Rs, Ss, Thirds, Ds
VARIABLES hist, set
ThirdOf(z) == CASE z = 0 -> <<>> [] z = 1 -> <<"MOON">> [] z = 2 -> <<"MOON", "MARS">> [] z = 3 -> <<"VENUS", "MOON">>
Ops == IF src = <<>> THEN {[op |-> "reset", third |-> ThirdOf(z), calc |-> c, ini |-> i, dir |-> 1] : z \in Thirds, c \in {TRUE}, i \in BOOLEAN}
       ELSE IF set < Len(src) THEN {[op |-> "place", b |-> src[set + 1], q |-> r, s |-> s, az |-> set] : r \in Rs, s \in Ss}
       ELSE IF set = Len(src) THEN {[op |-> "upd"]} \cup {[op |-> "sun", d |-> d] : d \in Ds \ {sun}} ELSE {}
MCInit == Init /\ hist = <<>> /\ set = 0
MCNext == \E e \in Ops : Do(e) /\ hist' = Append(hist, e) /\ set' = IF e.op = "place" \/ e.op = "upd" THEN set + 1 ELSE set
View == <<src, calc, sun, disc, last, set, IF hist = <<>> THEN TRUE ELSE hist[1].ini>>
EmitStep == hist'[Len(hist')].op = "upd" => EmitHist(hist')
EmitLong == TRUE
\* --- properties
Range == last.c >= 0 /\ last.c <= 10000
Covered == set > Len(src) /\ src # <<>> /\ (\E i \in 1..Len(src) : disc[src[i]][1] >= disc[src[i]][2] + 16) => last.c = 0
Free == set > Len(src) /\ src # <<>> /\ (\A i \in 1..Len(src) : disc[src[i]][2] >= disc[src[i]][1] + 16) => last.c = 10000
\* an annular eclipse leaves the ratio of the areas
Annular == set > Len(src) /\ Len(src) = 1 /\ disc["EARTH"][2] + disc["EARTH"][1] <= 16 => Near(last.c, 10000 - (disc["EARTH"][1] * disc["EARTH"][1] * 10000) \div 256, 60)
Inv == Range /\ Covered /\ Free /\ Annular
=============================================================================
