---------------------------- MODULE MC_Celestial ----------------------------
EXTENDS Celestial, VTGen
CONSTANTS Sels, Cens, Qs, Wide
VARIABLES hist, n
SelOf(z) == CASE z = 1 -> <<"EARTH", "SUN">> [] z = 2 -> <<"SUN", "EARTH", "MOON">> [] z = 3 -> <<"MARS", "MOON", "SUN", "EARTH">> [] z = 4 -> <<"MOON">>
QOf(z) == CASE z = 0 -> <<0, 0, 0, 1>> [] z = 1 -> <<1, 0, 0, 1>> [] z = 2 -> <<0, 1, 0, 0>> [] z = 3 -> <<1, 1, 1, 1>> [] z = 4 -> <<0, 0, 1, -1>> [] z = 5 -> <<1, -2, 0, 2>> [] z = 6 -> <<0, -1, 0, 1>>
Ops == IF sel = <<>> THEN {[op |-> "reset", sel |-> SelOf(z), center |-> c] : z \in Sels, c \in Cens}
       ELSE CASE n \in {1, 2} -> {[op |-> "body", b |-> b, x |-> x, v |-> v] : b \in SeqRange(sel), x \in {<<1200, -360, 720>>}, v \in {<<3, -7, 2>>}} \cup {[op |-> "upd"]}
              [] n = 3 -> {[op |-> "upd"]} \cup {[op |-> "loc", x |-> <<7000, 0, -300>>, v |-> <<0, 7, 1>>, q |-> QOf(q), w |-> <<0, 0, 0>>] : q \in Qs}
              [] n = 4 -> {[op |-> "loc", x |-> x, v |-> <<-1, 0, 7>>, q |-> QOf(q), w |-> w] : q \in Qs, x \in {<<0, 0, 0>>, <<720, 60, -180>>}, w \in {<<0, 0, 0>>, <<2, -1, 3>>}}
                          \cup {[op |-> "rel", a |-> a, b |-> b] : a \in SeqRange(sel), b \in SeqRange(sel)} \cup {[op |-> "id", i |-> i] : i \in 0..Len(sel) + 1}
              [] OTHER -> {}
MCInit == Init /\ hist = <<>> /\ n = 0
MCNext == \E e \in Ops : Do(e) /\ hist' = Append(hist, e) /\ n' = n + 1
View == <<sel, center, eph, glob, att, loc, n>>
EmitStep == n' >= 4 => EmitHist(hist')
EmitLong == TRUE
\* --- properties
\* rotations keep lengths; the origin change commutes with it
Sq(v) == v[1] * v[1] + v[2] * v[2] + v[3] * v[3]
Length == \A i \in 1..Len(loc) :
            LET u == [k \in 1..3 |-> loc[i].p[k] \div 180] IN Sq(Rot(att.q, u)) = N2(att.q) * N2(att.q) * Sq(u)
Inv == Length
=============================================================================
