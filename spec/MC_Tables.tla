------------------------------ MODULE MC_Tables ------------------------------
EXTENDS Tables, VTGen
CONSTANTS Deep
VARIABLES hist
V(i, c) == ((i * i * 37 + c * 211 + i * c * 53) % 1999) - 999
Rows(n) == [i \in 1..n |-> [c \in 1..6 |-> V(i, c)]]
Series == {[op |-> "series", rows |-> Rows(n), n |-> k, m |-> m, u |-> u, t |-> x] : n \in {12, 5}, k \in {2, 5, 8, 9}, m \in {0, 1}, u \in {3000000}, x \in {-3, 0, 1, 18, 19, 30, 44, 50}}
Gnss == {[op |-> "gnss", rows |-> [i \in 1..(15 * f) |-> [z \in 1..3 |-> SubSeq([c \in 1..6 |-> V(i, c + 4 * z)], 1, 4)]], sats |-> 3, dup |-> d, on |-> o, s |-> s, t |-> x] :
         f \in {1, 2}, d \in {FALSE, TRUE}, o \in {TRUE, FALSE}, s \in {1, 6}, x \in {-5, 0, 5, 41, 55, 60, 63, 100, 119, 130}}
Ops == IF hist = <<>> THEN {[op |-> "reset"]} ELSE IF Len(hist) = 1 THEN Series \cup {g \in Gnss : g.on \/ g.t \in {5, 60}} ELSE IF Len(hist) > Deep + 1 THEN {}
       ELSE IF tb.op = "series" THEN {[op |-> "go", t |-> t + d] : d \in {1, 5, 14}} ELSE {[op |-> "step"]} \cup (IF on THEN {[op |-> "at", d |-> d] : d \in {-3, 1, 3}} ELSE {})
MCInit == Init /\ hist = <<>>
MCNext == \E e \in Ops : Do(e) /\ hist' = Append(hist, e)
View == <<tb, t, on, base, out, Len(hist)>>
EmitStep == EmitHist(hist')
EmitLong == Len(hist) = GenLen => EmitHist(hist)
\* --- the weights add up to one, also those of the trigonometric polynomial of odd degree, and reproduce straight lines
RECURSIVE Total(_, _)
Total(ws, k) == IF k > Len(ws) THEN 0 ELSE ws[k] + Total(ws, k + 1)
RECURSIVE First(_, _)
First(ws, k) == IF k > Len(ws) THEN 0 ELSE (k - 1) * ws[k] + First(ws, k + 1)
Inv == Len(hist) = 1 => \A n \in {2, 3, 4, 5, 8, 9}, x \in 0..32 : x <= 4 * (n - 1) =>
          LET ws == Weights(FALSE, 0, 0, n, x) IN Near(Total(ws, 1), 100000, 300) /\ Near(4 * First(ws, 1), 100000 * x, 6500)
             /\ (n % 2 = 1 => Near(Total(Weights(TRUE, 2991027, 0, n, x), 1), 10000, 90))
=============================================================================
