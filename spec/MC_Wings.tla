------------------------------ MODULE MC_Wings ------------------------------
EXTENDS Wings, VTGen
CONSTANTS MaxLines, MaxTick
VARIABLES hist, sent
Pool == {[kind |-> "rt", c |-> "NOP", v |-> <<>>, dot |-> 1, sp |-> 0, note |-> 0], [kind |-> "tl", c |-> "SET", ti |-> 77, v |-> <<200, -2>>, dot |-> 0, sp |-> 1, note |-> 1],
         [kind |-> "wait", t |-> 8, dot |-> 1, sp |-> 1, note |-> 0], [kind |-> "wait", t |-> 20, dot |-> 0, sp |-> 0, note |-> 0], [kind |-> "blank", n |-> 5, note |-> 1],
         [kind |-> "comment"], [kind |-> "check"], [kind |-> "brace"]}
RECURSIVE Files(_)
Files(n) == IF n = 0 THEN {<<>>} ELSE LET s == Files(n - 1) IN s \cup {Append(x, a) : x \in {y \in s : Len(y) = n - 1}, a \in Pool}
Ops == IF w = <<>> THEN {[op |-> "reset", en |-> en, pre |-> p, step |-> 4, lines |-> f] : en \in {TRUE}, p \in {1, 2}, f \in Files(MaxLines)}
                        \cup {[op |-> "reset", en |-> FALSE, pre |-> 0, step |-> 4, lines |-> f] : f \in Files(1)}
       ELSE IF w[1].n < MaxTick THEN {[op |-> "tick"]} ELSE {}
MCInit == Init /\ hist = <<>> /\ sent = <<>>
MCNext == \E e \in Ops : Do(e) /\ hist' = Append(hist, e) /\ sent' = IF e.op = "tick" THEN sent \o out'.sent ELSE sent
View == <<w, sent, IF hist = <<>> THEN <<>> ELSE <<hist[1]>>>>
EmitStep == w # <<>> => w[1].n < MaxTick - 1 \/ EmitHist(hist')
EmitLong == Len(hist) = GenLen => EmitHist(hist)
\* --- properties: what was sent is the commands of the file so far, in order, each once; a disabled sender sends nothing
RECURSIVE All(_)
All(ls) == IF ls = <<>> THEN <<>> ELSE Sent(ls[1]) \o All(Tail(ls))
Ordered == w # <<>> => sent = All(SubSeq(w[1].lines, 1, w[1].ptr - 1))
Silent == w # <<>> /\ ~w[1].en => sent = <<>>
Inv == Ordered /\ Silent
=============================================================================
