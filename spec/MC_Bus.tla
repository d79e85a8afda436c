------------------------------- MODULE MC_Bus -------------------------------
EXTENDS Bus, VTGen
CONSTANTS Fam, Caps, MaxLen, MaxReg, Vals
VARIABLES hist, sent, got, lost, prev
Chunk(k, n) == [i \in 1..n |-> ((k + i - 1) % 251) + 1]
Ops == IF ~made THEN {[op |-> "reset", rx |-> a, tx |-> b, max |-> MaxReg, pins |-> 3] : a \in Caps, b \in Caps}
       ELSE IF Fam = 1 THEN
         (IF Len(sent) < 9 THEN {[op |-> "wtx", d |-> Chunk(Len(sent) + 1, n), off |-> o] : n \in 0..MaxLen, o \in {0, 2}} ELSE {})
         \cup {[op |-> "rtx", n |-> n, off |-> o] : n \in 0..MaxLen, o \in {0, 1}}
         \cup (IF Len(rx.q) < 2 THEN {[op |-> "wrx", d |-> <<200>>, off |-> 0]} ELSE {}) \cup {[op |-> "rrx", n |-> 2, off |-> 0]}
       ELSE IF Fam = 2 THEN
         {[op |-> "dev", a |-> a] : a \in {1, 2}} \cup {[op |-> "point", a |-> a, reg |-> r] : a \in {1}, r \in 0..MaxReg}
         \cup {[op |-> "write", a |-> a, reg |-> r, v |-> v] : a \in {1, 2}, r \in 0..MaxReg, v \in Vals}
         \cup {[op |-> "next", a |-> a] : a \in {1, 2}} \cup {[op |-> "read", a |-> a, reg |-> r] : a \in {1, 2}, r \in 0..MaxReg}
         \cup {[op |-> "wcmd", a |-> a, d |-> d] : a \in {1, 2}, d \in {<<>>, <<0>>, <<1>>, <<1, 5>>, <<MaxReg, 5>>, <<2, 0, 5>>}}
         \cup {[op |-> "rcmd", a |-> a, n |-> n] : a \in {1, 2}, n \in {0, 2, 3}}
       ELSE {[op |-> "pin", p |-> p, v |-> v] : p \in 1..3, v \in BOOLEAN}
MCInit == Init /\ hist = <<>> /\ sent = <<>> /\ got = <<>> /\ lost = FALSE /\ prev = pin
MCNext == \E e \in Ops : /\ Do(e) /\ hist' = Append(hist, e)
                         /\ sent' = IF e.op = "wtx" THEN sent \o e.d ELSE sent
                         /\ got' = IF e.op = "rtx" THEN got \o out'.d ELSE got
                         /\ lost' = (lost \/ (e.op = "wtx" /\ Len(tx.q) + Len(e.d) >= tx.cap))
                         /\ prev' = pin
View == <<made, rx, tx, i2c, pin, Len(sent), lost>>
EmitStep == EmitHist(hist')
EmitLong == Len(hist) = GenLen => EmitHist(hist)
\* --- properties
\* a byte stream is delivered unaltered, in order and exactly once while it fits
Fifo == ~lost => sent = got \o tx.q
\* what is left after an overflow is still the newest part of the stream
Newest == tx.q = SubSeq(sent, Len(sent) - Len(tx.q) + 1, Len(sent))
\* pointer within the register file
PtrOk == i2c.ptr < i2c.max \/ i2c.max = 1
Edges == "ev" \in DOMAIN out => \A k \in SeqRange(out.ev) : prev[k[1]] # pin[k[1]]
Inv == Fifo /\ Newest /\ PtrOk /\ Edges
=============================================================================
