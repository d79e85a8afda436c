------------------------------ MODULE MC_Files ------------------------------
EXTENDS Files, VTGen
CONSTANTS Fam, Deep
VARIABLES hist
\* settings: every form, type and a missing one
Ents == {<<[s |-> "A", k |-> "x", i |-> 0, f |-> 0, t |-> t[1], v |-> t[2]], [s |-> "B", k |-> "x", i |-> 0, f |-> 0, t |-> "int", v |-> 5],
           [s |-> "A", k |-> "x", i |-> 0, f |-> 1, t |-> "dec", v |-> 1500], [s |-> "A", k |-> "x", i |-> 1, f |-> 1, t |-> "int", v |-> -3], [s |-> "A", k |-> "x", i |-> 2, f |-> 1, t |-> u[1], v |-> u[2]],
           [s |-> "A", k |-> "x", i |-> 1, f |-> 2, t |-> "int", v |-> q], [s |-> "A", k |-> "x", i |-> 1, f |-> 3, t |-> "int", v |-> 9]>> :
         t \in {<<"int", 1>>, <<"dec", -2750>>, <<"word", "ENABLE">>, <<"word", "true">>, <<"word", "J2000">>, <<"path", "/d/CORE/x.csv">>}, u \in {<<"int", 300>>, <<"word", "abc">>}, q \in {0, 4}}
Gets == {[op |-> "get", how |-> h, s |-> s, k |-> k, n |-> 4] : h \in {"int", "dec", "bool", "enable", "str", "char", "ivec", "dvec", "vec3", "cvec", "arr", "svec", "slist", "quat"}, s \in {"A", "B", "C"}, k \in {"x", "y"}}
Rows == {<<[t |-> 0, d |-> <<1, 2, 3>>, flag |-> 1, p |-> 10]>>, <<[t |-> 2, d |-> <<1, 2, 3>>, flag |-> 1, p |-> 10], [t |-> 5, d |-> <<4, 5, 6>>, flag |-> 0, p |-> 20]>>,
         <<[t |-> 4, d |-> <<7, 7, 7>>, flag |-> 0, p |-> 3], [t |-> 1, d |-> <<4, 5, 6>>, flag |-> 1, p |-> 20], [t |-> 3, d |-> <<8, 5, 6>>, flag |-> 1, p |-> 22]>>}
Ops == IF ~on THEN {[op |-> "reset"]}
       ELSE IF Fam = 1 THEN (IF ini = <<>> THEN {[op |-> "ini", ents |-> x] : x \in Ents} ELSE IF Len(hist) < 3 THEN Gets ELSE {})
       ELSE IF Fam = 2 THEN (IF Len(hist) < 2 + Deep THEN {[op |-> "scen", rows |-> x, en |-> b] : x \in Rows, b \in BOOLEAN} ELSE {})
            \cup (IF scen # <<>> /\ Len(hist) < 3 + Deep THEN {[op |-> "ask", t |-> t] : t \in 0..6} ELSE {})
            \cup (IF Len(hist) = 1 THEN {[op |-> "csv", kind |-> k, rows |-> <<<<1, -2500>>, <<30, 4>>, <<7, 0>>>>, rh |-> IF k = "hdr" THEN rh ELSE 0, ch |-> IF k = "hdr" THEN ch ELSE 0] : k \in {"dbl", "hdr", "str"}, rh \in 0..3, ch \in 0..2} ELSE {})
       ELSE (IF lg = <<>> /\ Len(hist) < 2 THEN {[op |-> "log", en |-> a, save |-> b] : a, b \in BOOLEAN} \cup {[op |-> "title", kind |-> k, name |-> "pos", frame |-> "i", unit |-> "m", n |-> n, m |-> 2] : k \in {"scalar", "vector", "quaternion", "matrix"}, n \in 1..4} ELSE {})
            \cup (IF lg # <<>> /\ Len(hist) < Deep THEN {[op |-> "add", c |-> c] : c \in 1..2} \cup {[op |-> "clear"], [op |-> "flag", c |-> 1, b |-> ~lg[1].m[1].en], [op |-> "enable", b |-> ~lg[1].en]}
                     \cup {[op |-> o, nl |-> b] : o \in {"head", "vals"}, b \in BOOLEAN} \cup {[op |-> "copy", f |-> f, ver |-> v] : f \in 0..1, v \in 1..2} ELSE {})
            \cup (IF lg # <<>> THEN {[op |-> "close"]} ELSE {})
MCInit == Init /\ hist = <<>>
MCNext == \E e \in Ops : Do(e) /\ hist' = Append(hist, e)
View == IF Fam = 3 THEN <<on, lg, Len(hist), {hist[i].op : i \in 1..Len(hist)}>> ELSE <<on, ini, scen, Len(hist)>>
EmitStep == (Fam = 3 /\ lg' # <<>>) \/ EmitHist(hist')
EmitLong == Len(hist) = GenLen => EmitHist(hist)
\* --- properties: as long as no text is withheld, rows of values have the width of the header row before them
Wide == lg # <<>> => \A i \in 1..Len(lg[1].rows) : \A j \in 1..Len(lg[1].rows[i]) : lg[1].rows[i][j] > 10
First == lg # <<>> /\ ~lg[1].born => lg[1].rows = <<>> /\ DOMAIN lg[1].files = {}
Held == Fam = 2 /\ scen # <<>> /\ "p" \in DOMAIN out => out.p = 0 \/ \E i \in 1..Len(scen[1].rows) : scen[1].rows[i].p = out.p
Inv == Wide /\ First /\ Held
=============================================================================
