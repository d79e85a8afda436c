----------------------------- MODULE MC_Thermal -----------------------------
EXTENDS Thermal, VTGen
CONSTANTS Fam, Deep
VARIABLES hist
Zero2 == <<<<0, 0>>, <<0, 0>>>>
Nd(ty, he, cap, nv, t) == [type |-> ty, heater |-> he, cap |-> cap, al |-> 5, ep |-> 8, area |-> 10, nv |-> nv, t |-> t]
Nets == {[op |-> "net", nodes |-> <<Nd(0, 1, 50, 1, 300000), Nd(ty, 0, 100, 4, 280000)>>, heaters |-> <<[p |-> 20000, lo |-> 208, up |-> 216]>>,
          times |-> <<0, 10, 30>>, loads |-> <<<<0, 10000, -20000>>, <<5000, 5000, 5000>>>>, cij |-> <<<<0, c>>, <<c, 0>>>>, rij |-> Zero2, solar |-> so, step |-> st] :
          ty \in {0, 1, 2}, c \in {0, 5}, so \in BOOLEAN, st \in {4, 8}}
Ops == IF env = <<>> THEN {[op |-> "reset"]}
       ELSE IF Fam = 1 THEN (IF hc = <<>> THEN {[op |-> "hc", lo |-> lo, up |-> up, p |-> p] : lo \in {0, 8}, up \in {4, 8, 16}, p \in {5000, -1}} ELSE {})
            \cup (IF hc # <<>> THEN {[op |-> "hctl", T |-> T] : T \in {-1, 0, 1, 7, 8, 9, 15, 16, 17, 88, 89}} \cup {[op |-> "hset", lower |-> b, v |-> v] : b \in BOOLEAN, v \in {-8, 12}} ELSE {})
       ELSE IF Fam = 2 THEN (IF hl = <<>> THEN {[op |-> "hl", ts |-> ts, vs |-> [i \in 1..Len(ts) |-> (i * i * 700) % 1900]] : ts \in {<<0, 4>>, <<0, 1, 4>>, <<0, 2, 3, 6>>}} ELSE {})
            \cup (IF hl # <<>> /\ Len(hist) < 2 + Deep THEN {[op |-> "hq", t2 |-> t, so |-> 100, al |-> 20, ir |-> 3, he |-> 4000] : t \in {0, 1, 2, 3, 5, 7, 8, 9, 12, 13, 17, 24, 101}} ELSE {})
       ELSE (IF th = <<>> THEN Nets ELSE {})
            \cup (IF th # <<>> /\ Len(hist) = 2 THEN {[op |-> "env", ek |-> ek, sk |-> sk, af |-> 3, hot |-> 240, cold |-> 180] : ek \in {"ax", "diag"}, sk \in {"anti", "perp", "hid"}} ELSE {})
            \cup (IF th # <<>> /\ Len(hist) > 2 /\ Len(hist) < 3 + Deep THEN {[op |-> "prop", t |-> th[1].t + d] : d \in {0, 4, 13}} ELSE {})
MCInit == Init /\ hist = <<>>
MCNext == \E e \in Ops : Do(e) /\ hist' = Append(hist, e)
View == <<th, env, hc, hl, IF Fam = 1 THEN 0 ELSE Len(hist)>>
EmitStep == EmitHist(hist')
EmitLong == Len(hist) = GenLen => EmitHist(hist)
\* --- properties
Hyst == hc # <<>> /\ hist[Len(hist)].op = "hctl" => LET h == hc[1] T == hist[Len(hist)].T IN (h.on => T <= h.up \/ T < h.lo) /\ (~h.on => T >= h.lo \/ T > h.up)
Inside == hl # <<>> /\ "v" \in DOMAIN out => \E i, j \in 1..Len(hl[1].vs) : hl[1].vs[i] <= out.v + 1 /\ out.v <= hl[1].vs[j]
\* boundary nodes keep their temperature; conduction alone conserves energy
Fixed == th # <<>> => \A i \in 1..Num(th[1]) : th[1].nodes[i].type # 0 => th[1].T[i] = th[1].nodes[i].t
Inv == Hyst /\ Inside /\ Fixed
=============================================================================
