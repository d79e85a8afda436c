---------------------------- MODULE MC_Structure ----------------------------
EXTENDS Structure, VTGen
CONSTANTS Deep
VARIABLES hist
F(a, ref) == [a |-> a, ref |-> ref, spec |-> 3, air |-> 4, pos |-> <<3, -2, 5>>, n |-> <<3, 4, 0>>]
Resets == {[op |-> "reset", m |-> 200, cog |-> <<1, 0, -2>>, I |-> <<9000, 12000, 15000, 500, -300, 200>>, faces |-> f] :
           f \in {<<>>, <<F(2, 5)>>, <<F(2, 5), F(1, 11), F(3, 2)>>, <<F(-1, 5)>>}}
S(f, k, v) == [op |-> "set", f |-> f, k |-> k, v |-> v]
Sets == {S("mass", 0, <<m>>) : m \in {0, 500, -3}} \cup {S("add", 0, <<m>>) : m \in {-500, -100}} \cup {S("cog", 0, <<4, 4, 0>>), S("I", 0, <<8000, 8000, 9000, 0, 0, 0>>)}
        \cup {S("face", 0, <<2>>), S("drop", 0, <<0>>), S("a", 0, <<0>>), S("a", 0, <<7>>), S("ref", 0, <<11>>), S("ref", 0, <<10>>), S("spec", 0, <<-1>>), S("spec", 1, <<10>>), S("n", 0, <<0, 0, 5>>), S("pos", 0, <<0, 9, 0>>)}
Steps == {[op |-> "step", sun |-> <<2, 2, 1>>, fo |-> <<3000, -500, 0>>, to |-> <<0, 50000, 20000>>]}
Ops == IF Len(hist) = 0 THEN Resets ELSE IF Len(hist) > Deep THEN {} ELSE IF Len(hist) = Deep THEN Steps ELSE Sets
MCInit == Init /\ hist = <<>>
MCNext == \E e \in Ops : Do(e) /\ hist' = Append(hist, e)
View == <<kin, faces, Len(hist), IF hist = <<>> THEN "" ELSE hist[Len(hist)].op>>
EmitStep == EmitHist(hist')
EmitLong == Len(hist) = GenLen => EmitHist(hist)
\* mass and faces stay physical, whatever is asked
Inv == Is(kin) => kin[1].m > 0 /\ \A i \in 1..Len(faces) : Valid(faces[i])
=============================================================================
