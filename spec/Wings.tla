------------------------------- MODULE Wings -------------------------------
(* Replay of an operation file: one line per run of the command sender, in
   order; waits; what is sent for each line.  Anchors: wings_operation_file.*,
   wings_command_sender_to_c2a.*  Times in 1/16 s.                           *)
EXTENDS VTLib, TLC
VARIABLES w, out
vars == <<w, out>>
RECURSIVE Be(_, _)
Be(v, n) == IF n = 0 THEN <<>> ELSE Be(v \div 256, n - 1) \o <<v % 256>>
\* the command database: code and argument widths (sign is in the two's complement bytes)
Db == [NOP |-> [id |-> 16, a |-> <<>>], SET |-> [id |-> 300, a |-> <<1, 2>>], BIG |-> [id |-> 65535, a |-> <<4, 8, 1>>]]
RECURSIVE Param(_, _)
Param(ws, vs) == IF ws = <<>> THEN <<>> ELSE Be(vs[1], ws[1]) \o Param(Tail(ws), Tail(vs))
\* lines that hold something: comments and blank lines are not lines of the operation
Real(ls) == SelectSeq(ls, LAMBDA l : l.kind \notin {"comment", "blank"})
\* what a line makes the sender send
Sent(l) == IF l.kind \in {"rt", "tl"} THEN <<[k |-> l.kind, id |-> Db[l.c].id, ti |-> IF l.kind = "tl" THEN l.ti ELSE 0, p |-> Param(Db[l.c].a, l.v)]>> ELSE <<>>
Init == w = <<>> /\ out = [ok |-> TRUE]
Reset(e) == w' = <<[en |-> e.en, pre |-> Max2(1, e.pre), step |-> e.step, lines |-> Real(e.lines), ptr |-> 1, wait |-> 0, n |-> 0]>> /\ out' = [ok |-> TRUE]
\* one tick of the component clock; the sender runs at multiples of its prescaler
Tick(e) == LET s == w[1]
               runs == s.en /\ (s.n % s.pre) = 0
               s1 == [s EXCEPT !.n = @ + 1]
           IN IF ~runs THEN w' = <<s1>> /\ out' = [sent |-> <<>>]
              ELSE IF s.wait > 0 THEN w' = <<[s1 EXCEPT !.wait = @ - s.pre * s.step]>> /\ out' = [sent |-> <<>>]
              ELSE IF s.ptr > Len(s.lines) THEN w' = <<s1>> /\ out' = [sent |-> <<>>]
              ELSE LET l == s.lines[s.ptr]
                   IN w' = <<[s1 EXCEPT !.ptr = @ + 1, !.wait = IF l.kind = "wait" THEN l.t ELSE 0]>> /\ out' = [sent |-> Sent(l)]
Do(e) == \/ e.op = "reset" /\ Reset(e)
         \/ w # <<>> /\ e.op = "tick" /\ Tick(e)
Match(e, o) == e.r = o
=============================================================================
