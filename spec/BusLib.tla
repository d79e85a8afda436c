------------------------------- MODULE BusLib -------------------------------
(* Pure state machines of the three kinds of port a component and an on board
   computer share: the byte pipe of a UART, the registers of an I2C line, the
   level of a GPIO pin.  Used by Bus.tla (the port classes) and Obc.tla.       *)
EXTENDS VTLib, TLC
\* --- one direction of a UART: a queue q of capacity cap; a full ring forgets everything it held
PipeNew(n) == [cap |-> IF n <= 0 THEN 1024 ELSE n, q |-> <<>>]
PipeWrite(p, d) == LET all == p.q \o d  keep == Len(all) % p.cap IN [p EXCEPT !.q = SubSeq(all, Len(all) - keep + 1, Len(all))]
PipeTake(p, n) == SubSeq(p.q, 1, Min2(n, Len(p.q)))
PipeRest(p, n) == [p EXCEPT !.q = SubSeq(p.q, Min2(n, Len(p.q)) + 1, Len(p.q))]
\* --- I2C line: registers per device address, one shared register pointer
I2cNew(m) == [max |-> m, ptr |-> 0, reg |-> EmptyFn, cmd |-> EmptyFn]
\* (registers and command bytes that are zero are not kept in the map)
PutNZ(f, k, v) == IF v = 0 THEN Drop(f, k) ELSE Put(f, k, v)
I2cReg(s, a, r) == IF <<a, r>> \in DOMAIN s.reg THEN s.reg[<<a, r>>] ELSE 0
I2cDevice(s, a) == [s EXCEPT !.reg = [x \in {y \in DOMAIN s.reg : ~(y[1] = a /\ y[2] < s.max)} |-> s.reg[x]],
                             !.cmd = [x \in {y \in DOMAIN s.cmd : y[1] # a} |-> s.cmd[x]]]
I2cPoint(s, r) == IF r >= s.max THEN s ELSE [s EXCEPT !.ptr = r]
I2cWrite(s, a, r, v) == IF r >= s.max THEN s ELSE [s EXCEPT !.ptr = r, !.reg = PutNZ(s.reg, <<a, r>>, v)]
I2cNext(s) == [s EXCEPT !.ptr = IF s.ptr + 1 >= s.max THEN 0 ELSE s.ptr + 1]
RECURSIVE I2cCmd(_, _, _, _)
I2cCmd(s, a, i, d) == IF i > Len(d) THEN s ELSE I2cCmd([s EXCEPT !.cmd = PutNZ(s.cmd, <<a, i - 1>>, d[i])], a, i + 1, d)
I2cCommand(s, a, d) == LET t == I2cCmd(s, a, 1, d) IN
   IF Len(d) = 1 THEN I2cPoint(t, d[1]) ELSE IF Len(d) = 2 THEN I2cWrite(t, a, d[1], d[2]) ELSE t
I2cCmdRead(s, a, n) == [i \in 1..n |-> IF <<a, i - 1>> \in DOMAIN s.cmd THEN s.cmd[<<a, i - 1>>] ELSE 0]
\* bursts: consecutive registers from r on
RECURSIVE I2cBurstW(_, _, _, _)
I2cBurstW(s, a, r, d) == IF d = <<>> THEN s ELSE I2cBurstW(I2cWrite(s, a, r % 256, d[1]), a, r + 1, Tail(d))
I2cBurstVals(s, a, r, n) == [i \in 1..n |-> LET x == (r + i - 1) % 256 IN IF x >= s.max THEN 0 ELSE I2cReg(s, a, x)]
RECURSIVE I2cBurstR(_, _, _)
I2cBurstR(s, r, n) == IF n = 0 THEN s ELSE I2cBurstR(I2cPoint(s, r % 256), r + 1, n - 1)
\* reading on from the pointer
I2cStreamVals(s, a, n) == [i \in 1..n |-> I2cReg(s, a, (s.ptr + i - 1) % s.max)]
I2cStream(s, n) == [s EXCEPT !.ptr = (s.ptr + n) % s.max]
=============================================================================
