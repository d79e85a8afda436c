------------------------------- MODULE Codec -------------------------------
(* Byte-level encodings: SLIP framing, big-endian copies, quantisation, and
   the binary form of command arguments.  Anchors: utilities/{slip,endian,quantization}.*,
   setting_file_reader/c2a_command_database.*                                *)
EXTENDS VTLib, TLC
VARIABLES on, frame, db, out
vars == <<on, frame, db, out>>
FEND == 192  FESC == 219  TFEND == 220  TFESC == 221
RECURSIVE Esc(_)
Esc(d) == IF d = <<>> THEN <<>>
          ELSE (IF d[1] = FEND THEN <<FESC, TFEND>> ELSE IF d[1] = FESC THEN <<FESC, TFESC>> ELSE <<d[1]>>) \o Esc(Tail(d))
Enc(d) == Esc(d) \o <<FEND>>
EncH(d) == <<FEND>> \o Enc(d)
\* up to the first frame end; an escape turns TFEND and TFESC back, and before any other byte, or at the end, it is dropped
RECURSIVE Une(_)
Une(d) == IF d = <<>> \/ d[1] = FEND THEN <<>>
          ELSE IF d[1] # FESC THEN <<d[1]>> \o Une(Tail(d))
          ELSE IF Len(d) = 1 \/ d[2] = FEND THEN <<>>
          ELSE <<IF d[2] = TFEND THEN FEND ELSE IF d[2] = TFESC THEN FESC ELSE d[2]>> \o Une(SubSeq(d, 3, Len(d)))
Dec(d) == Une(d)
DecH(d) == IF d = <<>> THEN <<>> ELSE Une(Tail(d))
Rev(d) == [i \in 1..Len(d) |-> d[Len(d) + 1 - i]]
\* quantisation towards zero, n and q in 1/64
Quant(n, q) == TDiv(n, q) * q
\* --- IEEE 754 of s * n / 2^k (n > 0): exponent and fraction digits of n
RECURSIVE Bits(_)
Bits(n) == IF n = 0 THEN <<>> ELSE Bits(n \div 2) \o <<n % 2>>
RECURSIVE Val(_)
Val(b) == IF b = <<>> THEN 0 ELSE 2 * Val(SubSeq(b, 1, Len(b) - 1)) + b[Len(b)]
Fix(n, w) == LET b == Bits(n) IN [i \in 1..w |-> IF i <= w - Len(b) THEN 0 ELSE b[i - (w - Len(b))]]
Ieee(n, k, ew, fw) ==
  IF n = 0 THEN [i \in 1..(1 + ew + fw) |-> 0]
  ELSE LET b == Bits(Abs(n))
           ex == Len(b) - 1 - k + (2^(ew - 1) - 1)
           fr == [i \in 1..fw |-> IF i < Len(b) THEN b[i + 1] ELSE 0]
       IN <<IF n < 0 THEN 1 ELSE 0>> \o Fix(ex, ew) \o fr
ToBytes(bits) == [i \in 1..(Len(bits) \div 8) |-> Val(SubSeq(bits, 8 * i - 7, 8 * i))]
Width(t) == CASE t \in {"uint8_t", "int8_t"} -> 1 [] t \in {"uint16_t", "int16_t"} -> 2 [] t \in {"uint32_t", "int32_t", "float"} -> 4
              [] t \in {"uint64_t", "int64_t", "double"} -> 8 [] OTHER -> 0
\* integers are given by their two's complement bytes, most significant first (the driver writes them as decimal text)
Arg(e) == IF e.t = "float" THEN ToBytes(Ieee(e.n, e.k, 8, 23)) ELSE IF e.t = "double" THEN ToBytes(Ieee(e.n, e.k, 11, 52)) ELSE e.d
Known == {"uint8_t", "uint16_t", "uint32_t", "uint64_t", "int8_t", "int16_t", "int32_t", "int64_t", "float", "double", "raw"}
Type(t) == IF t \in Known THEN t ELSE "error"
\* --- command database: later lines of the same name replace earlier ones; comments and other lines do not count
Line(f, l) == IF l.kind = "cmd" THEN Put(f, l.name, [id |-> l.id, a |-> [i \in 1..Len(l.a) |-> Type(l.a[i])]]) ELSE f
RECURSIVE Lines(_, _)
Lines(f, s) == IF s = <<>> THEN f ELSE Lines(Line(f, s[1]), Tail(s))
Info(f, n) == IF n \in DOMAIN f THEN [name |-> n, id |-> f[n].id, a |-> f[n].a] ELSE [name |-> "Error", id |-> 0, a |-> <<>>]

Init == on = FALSE /\ frame = <<>> /\ db = EmptyFn /\ out = [ok |-> TRUE]
Same == UNCHANGED <<on, db>>
Reset(e) == on' = TRUE /\ frame' = <<>> /\ db' = EmptyFn /\ out' = [ok |-> TRUE]
\* frame: bytes on the line (several frames may follow each other)
Send(e) == frame' = frame \o (IF e.h THEN EncH(e.d) ELSE Enc(e.d)) /\ out' = [d |-> IF e.h THEN EncH(e.d) ELSE Enc(e.d)] /\ Same
Recv(e) == /\ LET f == IF e.h /\ frame # <<>> THEN Tail(frame) ELSE frame
                  n == IF \E i \in 1..Len(f) : f[i] = FEND THEN CHOOSE i \in 1..Len(f) : f[i] = FEND /\ \A j \in 1..(i - 1) : f[j] # FEND ELSE Len(f)
              IN frame' = SubSeq(f, n + 1, Len(f)) /\ out' = [d |-> Une(f)]
           /\ Same
Raw(e) == out' = [d |-> IF e.h THEN DecH(e.d) ELSE Dec(e.d)] /\ UNCHANGED frame /\ Same
Copy(e) == out' = [d |-> Rev(e.d), clean |-> TRUE] /\ UNCHANGED frame /\ Same
Qz(e) == out' = [v |-> Quant(e.n, e.q), f |-> Quant(e.n, e.q)] /\ UNCHANGED frame /\ Same
Code(e) == out' = [d |-> Arg(e), clean |-> TRUE] /\ UNCHANGED frame /\ Same
Load(e) == db' = Lines(EmptyFn, e.lines) /\ out' = [ok |-> TRUE] /\ UNCHANGED <<on, frame>>
Ask(e) == out' = Info(db, e.name) /\ UNCHANGED frame /\ Same
Do(e) == \/ e.op = "reset" /\ Reset(e)
         \/ on /\ \/ e.op = "send" /\ Send(e)
                  \/ e.op = "recv" /\ Recv(e)
                  \/ e.op = "raw" /\ Raw(e)
                  \/ e.op = "copy" /\ Copy(e)
                  \/ e.op = "quant" /\ Qz(e)
                  \/ e.op = "arg" /\ Code(e)
                  \/ e.op = "load" /\ Load(e)
                  \/ e.op = "ask" /\ Ask(e)
Match(e, o) == e.r = o
=============================================================================
