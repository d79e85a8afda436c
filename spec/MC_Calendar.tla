----------------------------- MODULE MC_Calendar -----------------------------
EXTENDS Calendar, VTGen
CONSTANTS Deep
VARIABLES hist
Years == {1970, 1971, 1972, 1973, 1979, 1980, 1999, 2000, 2001, 2004, 2023, 2024, 2096, 2099}
Md == {<<1, 1>>, <<1, 31>>, <<2, 28>>, <<3, 1>>, <<6, 30>>, <<12, 30>>, <<12, 31>>, <<1, 5>>, <<1, 6>>, <<7, 15>>, <<10, 9>>}
Dates == {<<y, m[1], m[2], 0, 0, 0>> : y \in Years, m \in Md} \cup {<<y, 2, 29, 23, 59, 3839>> : y \in {1972, 2000, 2024, 2096}} \cup {<<y, m[1], m[2], 23, 59, 3839>> : y \in {1970, 1980, 2000, 2023, 2099}, m \in {<<2, 28>>, <<12, 31>>, <<1, 5>>}}
Spans == {[d |-> 0, s |-> 0, u |-> 1], [d |-> 0, s |-> 0, u |-> 63], [d |-> 0, s |-> 0, u |-> 32], [d |-> 0, s |-> 86399, u |-> 63], [d |-> 1, s |-> 0, u |-> 0], [d |-> 365, s |-> 1, u |-> 0]}
Op1 == {[op |-> "date", x |-> x] : x \in Dates} \cup {[op |-> "parse", x |-> x] : x \in {<<2020, 2, 29, 7, 5, 320>>, <<1985, 11, 1, 0, 0, 0>>, <<2003, 1, 2, 3, 4, 325>>}}
       \cup {[op |-> "gps", w |-> w, s |-> s, u |-> u] : w \in {0, 1, 1023, 1024, 2048, 2260}, s \in {0, 1, 86399, 518400, 604799}, u \in {0, 33}}
       \cup {[op |-> "doy", y |-> y, n |-> n] : y \in {1970, 1999, 2000, 2001, 2003, 2004, 2096, 2098}, n \in {1, 9, 59, 60, 99, 100, 300, 364, 365}} \cup {[op |-> "doy", y |-> y, n |-> 366] : y \in {1972, 2000, 2024}}
       \cup {[op |-> "name", head |-> "IGS0OPSFIN", y |-> 2023, n |-> n, p |-> p, f |-> f] : n \in {1, 40, 365}, p \in {"", "05M"}, f \in {"", "CLK.CLK"}}
Op2 == {[op |-> o, d |-> x.d, s |-> x.s, u |-> x.u] : o \in {"plus", "minus"}, x \in Spans} \cup {[op |-> "cmp", d |-> t.d + a, s |-> t.s, u |-> b] : a \in {0, 1}, b \in {t.u, 0, 63}}
Ops == IF ~Is(t) THEN {[op |-> "reset"]} ELSE IF Len(hist) = 1 THEN Op1 ELSE IF hist[2].op \in {"doy", "name"} \/ Len(hist) > Deep THEN {} ELSE Op2
MCInit == Init /\ hist = <<>>
MCNext == \E e \in Ops : Do(e) /\ hist' = Append(hist, e)
View == <<t, out, hist>>
EmitStep == EmitHist(hist')
EmitLong == Len(hist) = GenLen => EmitHist(hist)
\* --- the three ways to name an instant agree, and days follow each other
Inv == Is(t) => /\ FromDate(Date(t)) = t /\ t.s \in 0..86399 /\ t.u \in 0..63
                /\ (t.d >= Gps0 => LET w == Week(t) IN FromWeek(w[1], w[2], w[3]) = t /\ w[2] \in 0..604799)
                /\ LET a == Civil(t.d) b == Civil(t.d + 1) IN \/ b = <<a[1], a[2], a[3] + 1>>
                                                              \/ a[3] >= 28 /\ b = <<a[1], a[2] + 1, 1>>
                                                              \/ a[2] = 12 /\ a[3] = 31 /\ b = <<a[1] + 1, 1, 1>>
=============================================================================
