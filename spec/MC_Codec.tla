------------------------------ MODULE MC_Codec ------------------------------
EXTENDS Codec, VTGen
CONSTANTS Fam, MaxLen
VARIABLES hist, pend
Alpha == {192, 219, 220, 221, 0}
RECURSIVE Strings(_)
Strings(n) == IF n = 0 THEN {<<>>} ELSE LET s == Strings(n - 1) IN s \cup {Append(x, a) : x \in {y \in s : Len(y) = n - 1}, a \in Alpha}
Db1 == <<[kind |-> "head"], [kind |-> "cmd", name |-> "Cmd_A", id |-> 16, hex |-> TRUE, a |-> <<>>], [kind |-> "note"], [kind |-> "cmd", name |-> "B", id |-> 7, hex |-> FALSE, a |-> <<"uint8_t", "float", "what">>],
         [kind |-> "cmd", name |-> "Cmd_A", id |-> 300, hex |-> TRUE, a |-> <<"int64_t">>]>>
Ops == IF ~on THEN {[op |-> "reset"]}
       ELSE IF Fam = 1 THEN
         (IF Len(hist) < 2 THEN {[op |-> "raw", d |-> d, h |-> h] : d \in Strings(MaxLen), h \in BOOLEAN} ELSE {})
         \cup (IF Len(hist) < 4 THEN {[op |-> "send", d |-> d, h |-> FALSE] : d \in Strings(CASE Len(hist) = 1 -> MaxLen [] Len(hist) = 2 -> 2 [] OTHER -> 1)} ELSE {})
         \cup (IF frame # <<>> THEN {[op |-> "recv", h |-> FALSE]} ELSE {})
       ELSE IF Len(hist) > 2 THEN {}
       ELSE {[op |-> "quant", n |-> n, q |-> q] : n \in -70..70, q \in {1, 3, 16, 32}}
            \cup {[op |-> "copy", d |-> [i \in 1..n |-> 10 + i]] : n \in 0..9}
            \cup {[op |-> "arg", t |-> t, n |-> n, k |-> k] : t \in {"float", "double"}, n \in {0, 1, -1, 3, -5, 12345, -8388607}, k \in {0, 1, 7, 20, -4}}
            \cup {[op |-> "arg", t |-> t, d |-> [i \in 1..Width(t) |-> IF i = 1 THEN h ELSE IF i = Width(t) THEN l ELSE 129]] : t \in {"uint8_t", "int8_t", "uint16_t", "int16_t", "uint32_t", "int32_t", "uint64_t", "int64_t"}, h \in {0, 1, 127, 128, 255}, l \in {2, 254}}
            \cup {[op |-> "load", lines |-> Db1]} \cup {[op |-> "ask", name |-> n] : n \in {"Cmd_A", "B", "nil"}}
MCInit == Init /\ hist = <<>> /\ pend = <<>>
MCNext == \E e \in Ops : /\ Do(e) /\ hist' = Append(hist, e)
                         /\ pend' = CASE e.op = "send" -> Append(pend, e.d) [] e.op = "recv" -> Tail(pend) [] OTHER -> pend
View == <<on, frame, db, pend, IF Fam = 2 THEN 0 ELSE Len(hist), IF hist # <<>> /\ hist[Len(hist)].op = "recv" THEN out ELSE <<>>>>
EmitStep == EmitHist(hist')
EmitLong == Len(hist) = GenLen => EmitHist(hist)
\* --- properties
\* no frame end inside a frame
OneEnd == "d" \in DOMAIN out /\ hist # <<>> /\ hist[Len(hist)].op = "send" => \A i \in 1..(Len(out.d) - 1) : out.d[i] # FEND
\* frames arrive in order and unaltered
RECURSIVE Cat(_)
Cat(s) == IF s = <<>> THEN <<>> ELSE Enc(s[1]) \o Cat(Tail(s))
InOrder == Fam = 1 => frame = Cat(pend)
RoundTrip == \A i \in 1..Len(pend) : Dec(Enc(pend[i])) = pend[i] /\ DecH(EncH(pend[i])) = pend[i]
Inv == OneEnd /\ InOrder /\ RoundTrip
=============================================================================
