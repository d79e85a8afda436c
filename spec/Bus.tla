-------------------------------- MODULE Bus --------------------------------
(* The port classes themselves: one UART port, one I2C line, GPIO pins with
   an attached component.  Anchors: components/ports/{uart,i2c,gpio}_port.*,
   utilities/ring_buffer.*                                                    *)
EXTENDS BusLib
VARIABLES made, rx, tx, i2c, pin, out
vars == <<made, rx, tx, i2c, pin, out>>
Init == made = FALSE /\ rx = PipeNew(1) /\ tx = PipeNew(1) /\ i2c = I2cNew(1) /\ pin = EmptyFn /\ out = [ok |-> TRUE]
Reset(e) == /\ made' = TRUE /\ rx' = PipeNew(e.rx) /\ tx' = PipeNew(e.tx) /\ i2c' = I2cNew(e.max)
            /\ pin' = [p \in 1..e.pins |-> FALSE]      \* pins 1 and up; odd pins have a component attached
            /\ out' = [ok |-> TRUE]
Keep == UNCHANGED <<made, i2c, pin>>
\* UART.  wtx/rtx: from OBC to component; wrx/rrx: from component to OBC
WTx(e) == tx' = PipeWrite(tx, e.d) /\ out' = [n |-> Len(e.d)] /\ UNCHANGED rx /\ Keep
WRx(e) == rx' = PipeWrite(rx, e.d) /\ out' = [n |-> Len(e.d)] /\ UNCHANGED tx /\ Keep
RTx(e) == tx' = PipeRest(tx, e.n) /\ out' = [d |-> PipeTake(tx, e.n), clean |-> TRUE] /\ UNCHANGED rx /\ Keep
RRx(e) == rx' = PipeRest(rx, e.n) /\ out' = [d |-> PipeTake(rx, e.n), clean |-> TRUE] /\ UNCHANGED tx /\ Keep
\* I2C
K2 == UNCHANGED <<made, rx, tx, pin>>
Dev(e) == i2c' = I2cDevice(i2c, e.a) /\ out' = [ok |-> TRUE] /\ K2
Point(e) == i2c' = I2cPoint(i2c, e.reg) /\ out' = [ret |-> IF e.reg >= i2c.max THEN 0 ELSE 1] /\ K2
Write(e) == i2c' = I2cWrite(i2c, e.a, e.reg, e.v) /\ out' = [ret |-> IF e.reg >= i2c.max THEN 0 ELSE 1] /\ K2
Next1(e) == i2c' = I2cNext(i2c) /\ out' = [v |-> I2cReg(i2c, e.a, i2c.ptr)] /\ K2
Read(e) == i2c' = I2cPoint(i2c, e.reg) /\ out' = [v |-> IF e.reg >= i2c.max THEN 0 ELSE I2cReg(i2c, e.a, e.reg)] /\ K2
WCmd(e) == i2c' = I2cCommand(i2c, e.a, e.d) /\ out' = [ret |-> Len(e.d)] /\ K2
RCmd(e) == i2c' = i2c /\ out' = [ret |-> e.n, d |-> I2cCmdRead(i2c, e.a, e.n)] /\ K2
\* GPIO
PinW(e) == /\ e.p \in DOMAIN pin
           /\ pin' = [pin EXCEPT ![e.p] = e.v]
           /\ out' = [ret |-> 0, ev |-> IF e.p % 2 = 1 /\ pin[e.p] # e.v THEN <<<<e.p, IF e.v THEN 1 ELSE 0>>>> ELSE <<>>, lv |-> [p \in DOMAIN pin |-> pin'[p]]]
           /\ UNCHANGED <<made, rx, tx, i2c>>
Do(e) == \/ e.op = "reset" /\ Reset(e)
         \/ made /\ \/ e.op = "wtx" /\ WTx(e)
                    \/ e.op = "wrx" /\ WRx(e)
                    \/ e.op = "rtx" /\ RTx(e)
                    \/ e.op = "rrx" /\ RRx(e)
                    \/ e.op = "dev" /\ Dev(e)
                    \/ e.op = "point" /\ Point(e)
                    \/ e.op = "write" /\ Write(e)
                    \/ e.op = "next" /\ Next1(e)
                    \/ e.op = "read" /\ Read(e)
                    \/ e.op = "wcmd" /\ WCmd(e)
                    \/ e.op = "rcmd" /\ RCmd(e)
                    \/ e.op = "pin" /\ PinW(e)
Match(e, o) == e.r = o
=============================================================================
