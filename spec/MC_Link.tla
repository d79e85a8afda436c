------------------------------ MODULE MC_Link ------------------------------
EXTENDS Link, VTGen
CONSTANTS Fam, Deep
VARIABLES hist
Rs == {[op |-> "reset", lat |-> l[1], lon |-> l[2], h |-> 1, lim |-> m, rot |-> rt, n |-> n, id |-> i] :
       l \in (IF Fam = 1 THEN {<<0, 90>>, <<45, 30>>, <<-90, 0>>} ELSE {<<35, 140>>}), m \in (IF Fam = 1 THEN {0, 30, -10} ELSE {5}), rt \in {TRUE}, n \in {2}, i \in (IF Fam = 1 THEN {0, 2} ELSE {1})}
Dirs == {<<0, 0, 1>>, <<2, 1, 2>>, <<-3, 0, 4>>, <<4, -3, 0>>, <<2, -2, -1>>}
Pl(i, qs) == {[op |-> "place", i |-> i, d |-> d, kk |-> kk, q |-> q] : d \in Dirs \ {sc[i].d}, kk \in {0, 3}, q \in qs}
Up(i) == {[op |-> "upd", i |-> i]}
An(a, pats) == {[op |-> "ant", a |-> a, ini |-> ini, q |-> q, tx |-> t[1], rx |-> t[2], pat |-> p, p |-> 3, m |-> 3, nb |-> 2, bc |-> 3, bd |-> 1, g0 |-> 5000, lf |-> -1000, lp |-> -300, rg0 |-> 8000, rlf |-> -700, rlp |-> -100, nt |-> 3, np |-> 2, st |-> 60, sp |-> 90] :
  ini \in {TRUE, FALSE}, q \in {<<0, 0, 0, 1>>, <<1, 0, 0, 1>>} \cap (IF a = "s" THEN {<<0, 0, 0, 1>>} ELSE {<<0, 0, 0, 1>>}), t \in (IF a = "s" THEN {<<TRUE, FALSE>>, <<FALSE, TRUE>>} ELSE {<<TRUE, TRUE>>, <<TRUE, FALSE>>}), p \in pats}
Ca == {[op |-> "cal", ini |-> ini, a |-> -500, b |-> -1000, c |-> -300, d |-> -100, eb |-> 9600, hw |-> 2000, cg |-> -3000, mr |-> m] : ini \in {TRUE, FALSE}, m \in {0, 40000}}
Lk(i) == {[op |-> "link", i |-> i]}
Ops == IF ~Is(gs) THEN Rs ELSE IF Len(hist) > Deep THEN {}
       ELSE CASE Fam = 1 -> Pl(1, {Id}) \cup Up(1) \cup Up(2) \cup {[op |-> "turn"]}
              [] Fam = 2 -> CASE ~Is(ant.s) -> An("s", {TRUE, FALSE}) [] ~Is(ant.g) -> An("g", {TRUE, FALSE}) [] ~Is(cal) -> Ca
                              [] OTHER -> Pl(1, {Id, <<1, 1, 1, 1>>, <<0, 3, 0, 4>>}) \cup Up(1) \cup Lk(1)
MCInit == Init /\ hist = <<>>
MCNext == \E e \in Ops : Do(e) /\ hist' = Append(hist, e)
View == <<gs, sc, ant, cal, out, Len(hist)>>
EmitStep == EmitHist(hist')
EmitLong == Len(hist) = GenLen => EmitHist(hist)
\* --- properties
LastOp == IF hist = <<>> THEN [op |-> ""] ELSE hist[Len(hist)]
\* a spacecraft never updated is not seen; one straight above is, one below the horizontal is not (limit 0 or more)
Sane == Is(gs) => \A i \in 1..Len(sc) : (~sc[i].u => ~sc[i].v)
          /\ (LastOp.op = "upd" /\ LastOp.i = i => /\ (sc[i].d[1] = 0 /\ sc[i].d[2] = 0 /\ sc[i].d[3] > 0 => sc[i].v)
                                                   /\ (gs.lim >= 0 /\ sc[i].d[3] < 0 => ~sc[i].v))
\* twice the distance costs 6.02 dB, whatever the antennas
Six == Is(gs) /\ Is(ant.s) /\ Is(ant.g) /\ Is(cal) => \A i \in 1..Len(sc) : Loss([sc[i] EXCEPT !.kk = @ + 1]) - Loss(sc[i]) \in {6020, 6021, 6022}
\* every direction falls into some cell of a pattern, and away from the edges into exactly one
OneCell == Is(ant.s) /\ ant.s.pat => \A i \in 1..Len(sc) : LET u == OnSc(sc[i]) IN RowsOf(ant.s, u) # {} /\ ColsOf(ant.s, u) # {} /\ Cardinality(RowsOf(ant.s, u)) <= 2
\* a bit rate is given exactly when there is margin for it, and never without visibility
Rated == LastOp.op = "link" => LET l == Link(LastOp.i) IN (l.k = "yes" => sc[LastOp.i].v /\ l.s # {}) /\ (~sc[LastOp.i].v => l.k = "no")
Inv == Sane /\ Six /\ OneCell /\ Rated
=============================================================================
