----------------------------- MODULE MC_Products -----------------------------
EXTENDS Products, VTGen
CONSTANTS Deep
VARIABLES hist
S(a, sd, fl) == [p |-> <<151630344 + a, -13019348 - a, 214730655>>, c |-> 171736 - 3 * a, sd |-> sd, fl |-> fl]
T(i) == <<2013, 4, 3, 12 + (i \div 4), 15 * (i % 4), 123>>
Ids == <<"G01", "G02", "G32", "R01", "R24", "E02", "E30", "C06", "C46", "J02", "J04", "I01", "I05", "G05", "G06", "G07", "G08", "G09", "G10">>
Sds == <<<<>>, <<10, 9, 8, 210>>, <<-1, 3, -1, -1>>>>
Fls == <<<<>>, <<TRUE, FALSE, FALSE, TRUE>>, <<FALSE, TRUE, TRUE, FALSE>>>>
F(mode, n, m, corr, k, cut) == [there |-> TRUE, mode |-> mode, first |-> T(0), dt |-> 900000, gps |-> <<1734, 302400>>, mjd |-> 56385, frac |-> 500000, ids |-> SubSeq(Ids, 1, m), acc |-> [i \in 1..m |-> 7 * i],
  used |-> "ORBIT", sys |-> "WGS84", orb |-> CASE k = 0 -> "FIT" [] k = 1 -> "EXT" [] k = 2 -> "BCT" [] OTHER -> "HLM", ag |-> "MGEX", ft |-> "M ", ts |-> "GPS", bp |-> 1250000, bc |-> 1025000, com |-> k, trim |-> k = 1, corr |-> corr, cut |-> cut,
  ep |-> [i \in 1..n |-> [t |-> T(i - 1), s |-> [j \in 1..m |-> S(1000 * i + j, Sds[((i + j + k) % 3) + 1], Fls[((2 * i + j + k) % 3) + 1])]]]]
Sp3s == {F(m, n, s, c, k, -1) : m \in {"P", "V"}, n \in {1, 2, 3}, s \in {1, 2, 18}, c \in {TRUE, FALSE}, k \in {0, 1}} \cup {F("P", 3, 2, FALSE, k, -1) : k \in {2, 3}} \cup {F(m, 3, 2, c, 0, x) : m \in {"P", "V"}, c \in {TRUE, FALSE}, x \in 0..8}
        \cup {[F("P", 2, 2, FALSE, 0, -1) EXCEPT !.there = FALSE]}
Grid == <<0, 140, 10>>
Fr(n, k) == [name |-> n, o |-> <<27900, -k, 231950>>, v |-> [i \in 1..15 |-> 10 * i - 80 + k]]
An(s, n, k) == [rx |-> FALSE, s |-> s, n |-> n, type |-> "BLOCK IIA", dazi |-> IF k = 3 THEN 900 ELSE 0, g |-> Grid, from |-> <<1992, 11, 22, 0, 0, k>>, to |-> IF k = 0 THEN <<0, 1, 1, 0, 0, 0>> ELSE <<2008, 10, 16, 23, 59, 5999>>, f |-> [i \in 1..(1 + (k % 2)) |-> Fr(IF i = 1 THEN "G01" ELSE "G02", k + i)]]
Rx == [An("G", 1, 0) EXCEPT !.rx = TRUE]
Al == <<An("G", 1, 1), Rx, An("G", 1, 0), An("E", 11, 3), An("C", 46, 2)>>
Atxs == {[there |-> TRUE, cut |-> -1, part |-> 0, ants |-> SubSeq(Al, 1, n)] : n \in 0..5} \cup {[there |-> TRUE, cut |-> c, part |-> p, ants |-> Al] : c \in 0..4, p \in {0, 1}} \cup {[there |-> FALSE, cut |-> -1, part |-> 0, ants |-> Al]}
B(id, o1, o2, u, v, sl) == [id |-> id, svn |-> "G063", prn |-> "G01", st |-> IF v > 0 THEN "ABMF00GLP" ELSE "", o1 |-> o1, o2 |-> o2, unit |-> u, v |-> v, sd |-> 264, sl |-> sl]
Bl == <<B("DSB", "C1W", "C2W", "ns", -6750, <<>>), B("OSB", "C1P", "C2P", "cyc", 7787, <<-12345>>), B("ISB", "C1P", "C1C", "ns", 3, <<54321, 77>>), B("XYZ", "C2P", "C2C", "km", 0, <<-1, 2>>), B("DSB", "C1C", "", "ns", -90, <<>>)>>
Bsxs == {[there |-> t, cut |-> -1, ref |-> w, b |-> SubSeq(Bl, 1, n)] : n \in {0, 1, 5}, w \in {TRUE, FALSE}, t \in {TRUE, FALSE}} \cup {[there |-> TRUE, cut |-> c, ref |-> FALSE, b |-> Bl] : c \in 0..5}
Op1 == {[op |-> "sp3", f |-> f] : f \in Sp3s} \cup {[op |-> "atx", f |-> f] : f \in Atxs} \cup {[op |-> "bsx", f |-> f] : f \in Bsxs}
       \cup {[op |-> "idx", i |-> i] : i \in 0..165} \cup {[op |-> "num", s |-> Sys[i], n |-> n] : i \in 1..6, n \in {1, 2, 5}} \cup {[op |-> "num", s |-> "X", n |-> 1]}
       \cup {[op |-> "grid", g |-> g, z |-> z] : g \in {<<0, 170, 10>>, <<0, 900, 50>>, <<100, 200, 20>>}, z \in {-10, 0, 4, 6, 99, 100, 109, 111, 149, 151, 170, 199, 900, 950}}
       \cup {[op |-> "azi", a |-> g, z |-> z] : g \in {50, 300, 900}, z \in {0, 24, 26, 449, 451, 1799, 3149, 3151, 3599, 3600}}
Op2 == IF Is(sp3) THEN {[op |-> "get", i |-> i, k |-> k] : i \in 0..3, k \in {0, 1, 2, 17, 18}} \cup {[op |-> "epoch", i |-> i] : i \in 0..3} \cup {[op |-> "near", ms |-> m] : m \in {-500, 0, 449000, 451000, 900000, 1349000, 1351000, 5000000}}
       ELSE IF Is(atx) THEN {[op |-> "ant", s |-> "G", n |-> 1, j |-> j, f |-> 0] : j \in 0..(Len(Mine(1, "G")) - 1)} \cup {[op |-> "ant", s |-> "E", n |-> 11, j |-> 0, f |-> x] : x \in IF Len(Mine(11, "E")) > 0 THEN {0, 1} ELSE {}} 
       ELSE IF Is(bsx) THEN {[op |-> "bias", i |-> i] : i \in 0..(Biases - 1)} ELSE {}
Ops == IF hist = <<>> THEN {[op |-> "reset"]} ELSE IF Len(hist) = 1 THEN Op1 ELSE IF Len(hist) > Deep \/ hist[2].op \in {"idx", "num", "grid", "azi"} THEN {} ELSE Op2
MCInit == Init /\ hist = <<>>
MCNext == \E e \in Ops : Do(e) /\ hist' = Append(hist, e)
View == <<sp3, atx, bsx, out, hist>>
EmitStep == EmitHist(hist')
EmitLong == Len(hist) = GenLen => EmitHist(hist)
\* --- every index has its own number, which leads back to it
Tab == {<<s, n>> : s \in 1..6, n \in 1..62}
Inv == Len(hist) = 1 => \A x \in Tab : x[2] <= Count[x[1]] => Number(Index(Sys[x[1]], x[2])) = Sys[x[1]] \o Two(x[2])
=============================================================================
