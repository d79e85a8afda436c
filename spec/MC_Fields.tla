----------------------------- MODULE MC_Fields -----------------------------
EXTENDS Fields, VTGen
CONSTANTS Fam, Deep
VARIABLES hist
Base == [op |-> "reset", kind |-> "earth", cs |-> <<>>, deg |-> 4, on |-> TRUE, ini |-> FALSE, file |-> TRUE, sd |-> 0, two |-> FALSE, model |-> "NONE", f |-> 150, fa |-> 120, ap |-> 3]
Terms == {<< <<n, m, 700, IF m = 0 THEN 0 ELSE -400>> >> : n \in 2..5, m \in 0..5}
Rs == CASE Fam = 1 -> {[Base EXCEPT !.kind = k, !.cs = t, !.deg = d, !.ini = i] : k \in {"earth", "moon"}, t \in {x \in Terms : x[1][2] <= x[1][1]}, d \in {4, 6}, i \in {TRUE, FALSE}}
                      \cup {[Base EXCEPT !.kind = k, !.cs = << <<2, 0, 500, 0>> >>, !.deg = d, !.file = f, !.on = o] : k \in {"earth", "moon"}, d \in {-1, 0, 1, 2, 6}, f \in {TRUE, FALSE}, o \in {TRUE, FALSE}}
                      \cup {[Base EXCEPT !.kind = k, !.deg = 400, !.file = FALSE, !.ini = i] : k \in {"earth", "moon"}, i \in {TRUE, FALSE}}
        [] Fam = 2 -> {[Base EXCEPT !.kind = "mag", !.on = o, !.ini = i, !.sd = s, !.two = t] : t \in {TRUE, FALSE}, o \in {TRUE, FALSE}, i \in {TRUE, FALSE}, s \in {0, 30000}}
        [] OTHER -> {[Base EXCEPT !.kind = "air", !.on = o, !.ini = i, !.model = m, !.f = f, !.sd = IF f = 40 THEN 0 ELSE 3] : o \in {TRUE, FALSE}, i \in {TRUE, FALSE}, m \in {"STANDARD", "HARRIS_PRIESTER", "NRLMSISE00", "NONE"}, f \in {40, 200}}
Steps == CASE Fam = 1 -> {[op |-> "at", p |-> p, q |-> <<1, 2, 2, 4>>] : p \in {<<1200, -300, 800>>, <<0, 0, 1500>>, <<-900, 900, -1000>>}} \cup {[op |-> "grad", p |-> <<700, 900, -1100>>]}
                         \cup {[op |-> "body", b |-> "MOON", s |-> s] : s \in (IF set.kind = "moon" THEN {<<200000, 300000, 100000, -900, 500, 100>>} ELSE {})}
           [] Fam = 2 -> {[op |-> "at", w |-> x[1], lat |-> x[2], lon |-> x[3], alt |-> x[4], yr |-> x[5], g |-> x[6], q |-> <<1, 2, 2, 4>>] :
                           x \in {<<0, 35, 135, 500, 20200, 77>>, <<0, 35, 136, 500, 20200, 77>>, <<0, 35, 135, 800, 20350, 77>>, <<0, -36, 135, 500, 20200, 200>>, <<1, 35, 135, 500, 20200, 77>>, <<0, 88, -30, 300, 20150, 0>>}}
           [] OTHER -> {[op |-> "at", p |-> p, yr |-> 2024, day |-> 100, h |-> 6] : p \in {<<6800, 0, 0>>, <<3000, -6200, 500>>, <<-4000, -3000, 5300>>}} \cup {[op |-> "body", b |-> "SUN", s |-> <<-50000000, 100000000, 60000000>>]}
                        \cup {[op |-> "dens", model |-> m, alt |-> a, lat |-> 30, lon |-> 20, s |-> <<100, 50, 20>>] : m \in {"STANDARD", "HARRIS_PRIESTER"}, a \in {800, 1000, 4000, 4321, 10000, 15000}}
Ops == IF ~Is(set) THEN Rs ELSE IF Len(hist) > Deep THEN {} ELSE Steps
MCInit == Init /\ hist = <<>>
MCNext == \E e \in Ops : Do(e) /\ hist' = Append(hist, e)
View == <<set, sun, out, hist>>
EmitStep == EmitHist(hist')
EmitLong == Len(hist) = GenLen => EmitHist(hist)
\* --- properties of the model
\* the fields are harmonic: no change under the mirror images that keep a term; the oblate Earth pulls harder over the equator
Pts == {<<10000, 0, 0>>, <<0, 0, 10000>>, <<6000, 0, 8000>>, <<6000, -4800, 6400>>, <<-2800, 9600, 0>>}
Mirror(u) == <<u[1], u[2], -u[3]>>
Sane == Is(set) /\ hist = <<Last(hist)>> /\ Fam = 1 =>
  \A t \in SeqRange(set.cs), u \in Pts :
    LET a == Term(u, t[1], t[2], t[3], t[4]) b == Term(Mirror(u), t[1], t[2], t[3], t[4]) s == IF (t[1] + t[2]) % 2 = 0 THEN 1 ELSE -1 IN
    VN(a, [i \in 1..3 |-> s * Mirror(b)[i]], 40)
\* the air thins out with altitude, within layers and from one to the next; in the bulge it is denser
Thin == Fam = 3 => /\ \A a \in {x * 1000 + 7 : x \in 1..120} : Std(a + 500) < Std(a)
                   /\ \A i \in 1..(Len(HP) - 1) : HP[i][2] <= HP[i][3] /\ HP[i + 1][2] < HP[i][2] /\ HP[i + 1][3] < HP[i][3]
                   /\ \A i \in 1..(Len(Layers) - 1) : Near(Layers[i][2], Std(100 * Layers[i][1] - 1), 1500)
Inv == Sane /\ (hist # <<>> => Thin)
=============================================================================
