-------------------------------- MODULE Obc --------------------------------
(* The on board computer as a hub: UART, I2C and GPIO ports by number, used by
   the flight software side and by components (directly or through the
   communication base classes).  kind 0: OnBoardComputer, kind 1: ObcWithC2a.
   Anchors: components/real/cdh/on_board_computer*.cpp,
   components/base/{uart,i2c_target}_communication_with_obc.cpp,
   components/base/gpio_connection_with_obc.cpp                               *)
EXTENDS BusLib
VARIABLES made, kind, uart, i2c, gpio, wr, tg, gc, out
vars == <<made, kind, uart, i2c, gpio, wr, tg, gc, out>>
Init == made = FALSE /\ kind = 0 /\ uart = EmptyFn /\ i2c = EmptyFn /\ gpio = EmptyFn /\ wr = EmptyFn /\ tg = EmptyFn /\ gc = EmptyFn /\ out = [ok |-> TRUE]
Reset(e) == made' = TRUE /\ kind' = e.kind /\ uart' = EmptyFn /\ i2c' = EmptyFn /\ gpio' = EmptyFn /\ wr' = EmptyFn /\ tg' = EmptyFn /\ gc' = EmptyFn /\ out' = [ok |-> TRUE]
KU == UNCHANGED <<made, kind, i2c, gpio, wr, tg, gc>>
KI == UNCHANGED <<made, kind, uart, gpio, wr, tg, gc>>
KG == UNCHANGED <<made, kind, uart, i2c, wr, tg, gc>>
Ret(x) == out' = [ret |-> x]
\* ---- UART: up = component to OBC, dn = OBC to component
Port(n, m) == [up |-> PipeNew(n), dn |-> PipeNew(m)]
Conn(e) == IF e.p \in DOMAIN uart THEN Ret(-1) /\ UNCHANGED uart /\ KU ELSE uart' = Put(uart, e.p, Port(e.n, e.n)) /\ Ret(0) /\ KU
Close(e) == IF e.p \in DOMAIN uart THEN uart' = Drop(uart, e.p) /\ Ret(0) /\ KU ELSE Ret(-1) /\ UNCHANGED uart /\ KU
SendDn(e) == IF e.p \in DOMAIN uart THEN uart' = [uart EXCEPT ![e.p].dn = PipeWrite(@, e.d)] /\ Ret(Len(e.d)) /\ KU ELSE Ret(-1) /\ UNCHANGED uart /\ KU
SendUp(e) == IF e.p \in DOMAIN uart THEN uart' = [uart EXCEPT ![e.p].up = PipeWrite(@, e.d)] /\ Ret(Len(e.d)) /\ KU ELSE Ret(-1) /\ UNCHANGED uart /\ KU
RecvDn(e) == IF e.p \in DOMAIN uart THEN uart' = [uart EXCEPT ![e.p].dn = PipeRest(@, e.n)] /\ out' = [ret |-> Min2(e.n, Len(uart[e.p].dn.q)), d |-> PipeTake(uart[e.p].dn, e.n)] /\ KU
             ELSE out' = [ret |-> -1, d |-> <<>>] /\ UNCHANGED uart /\ KU
RecvUp(e) == IF e.p \in DOMAIN uart THEN uart' = [uart EXCEPT ![e.p].up = PipeRest(@, e.n)] /\ out' = [ret |-> Min2(e.n, Len(uart[e.p].up.q)), d |-> PipeTake(uart[e.p].up, e.n)] /\ KU
             ELSE out' = [ret |-> -1, d |-> <<>>] /\ UNCHANGED uart /\ KU
\* ---- a component using UartCommunicationWithObc
WNew(e) == LET t == Min2(e.tx, 1024) r == Min2(e.rx, 1024) c == e.p \notin DOMAIN uart IN
           /\ e.w \notin DOMAIN wr
           /\ wr' = Put(wr, e.w, [p |-> e.p, tx |-> t, rx |-> r, conn |-> c])
           /\ uart' = IF c THEN Put(uart, e.p, Port(t, r)) ELSE uart
           /\ out' = [conn |-> c] /\ UNCHANGED <<made, kind, i2c, gpio, tg, gc>>
WDel(e) == /\ e.w \in DOMAIN wr
           /\ wr' = Drop(wr, e.w)
           /\ uart' = IF wr[e.w].conn THEN Drop(uart, wr[e.w].p) ELSE uart
           /\ out' = [ok |-> TRUE] /\ UNCHANGED <<made, kind, i2c, gpio, tg, gc>>
\* parsed: what ParseCommand was given; its result (40 + size) is the result of the call
WRecv(e) == /\ e.w \in DOMAIN wr
            /\ LET w == wr[e.w] IN
               IF e.off > w.rx \/ e.n > w.rx - e.off \/ w.p \notin DOMAIN uart
               THEN out' = [ret |-> -1, parsed |-> FALSE, d |-> <<>>] /\ UNCHANGED uart
               ELSE LET d == PipeTake(uart[w.p].dn, e.n) IN
                    /\ uart' = [uart EXCEPT ![w.p].dn = PipeRest(@, e.n)]
                    /\ out' = IF d = <<>> THEN [ret |-> 0, parsed |-> FALSE, d |-> <<>>] ELSE [ret |-> 40 + Len(d), parsed |-> TRUE, d |-> d]
            /\ KU
WSend(e) == /\ e.w \in DOMAIN wr
            /\ LET w == wr[e.w] IN
               IF e.off > w.tx \/ e.off + Len(e.d) > w.tx THEN Ret(-1) /\ UNCHANGED uart
               ELSE Ret(0) /\ uart' = IF w.p \in DOMAIN uart THEN [uart EXCEPT ![w.p].up = PipeWrite(@, e.d)] ELSE uart
            /\ KU
\* ---- I2C
IConn(p, a) == Put(i2c, p, I2cDevice(IF p \in DOMAIN i2c THEN i2c[p] ELSE I2cNew(255), a))
IClose(p) == Drop(i2c, p)
I2cConn(e) == i2c' = IConn(e.p, e.a) /\ Ret(0) /\ KI
I2cCls(e) == i2c' = IClose(e.p) /\ Ret(IF e.p \in DOMAIN i2c THEN 0 ELSE -1) /\ KI
On(p) == p \in DOMAIN i2c
Untouched(n) == [i \in 1..n |-> 238]
CompW(p, a, r, d) == IF On(p) THEN i2c' = [i2c EXCEPT ![p] = I2cBurstW(@, a, r, d)] ELSE UNCHANGED i2c
CompRd(p, a, r, n) == IF On(p) THEN I2cBurstVals(i2c[p], a, r, n) ELSE Untouched(n)
CompR(p, r, n) == IF On(p) THEN i2c' = [i2c EXCEPT ![p] = I2cBurstR(@, r, n)] ELSE UNCHANGED i2c
CmdRd(p, a, n) == IF On(p) THEN I2cCmdRead(i2c[p], a, n) ELSE Untouched(n)
Code(p) == IF On(p) THEN 0 ELSE -1
ICw(e) == CompW(e.p, e.a, e.reg, e.d) /\ Ret(Code(e.p)) /\ KI
ICr(e) == CompR(e.p, e.reg, e.n) /\ out' = [ret |-> Code(e.p), d |-> CompRd(e.p, e.a, e.reg, e.n)] /\ KI
ICc(e) == UNCHANGED i2c /\ out' = [ret |-> Code(e.p), d |-> CmdRd(e.p, e.a, e.n)] /\ KI
\* flight software side (C2A only)
OCmd(e) == kind = 1 /\ (IF On(e.p) THEN i2c' = [i2c EXCEPT ![e.p] = I2cCommand(@, e.a, e.d)] ELSE UNCHANGED i2c) /\ Ret(Code(e.p)) /\ KI
OWr(e) == /\ kind = 1 /\ Len(e.d) >= 1
          /\ IF On(e.p) THEN i2c' = [i2c EXCEPT ![e.p] = IF Len(e.d) = 1 THEN I2cPoint(@, e.d[1]) ELSE I2cBurstW(@, e.a, e.d[1], Tail(e.d))] ELSE UNCHANGED i2c
          /\ Ret(Code(e.p)) /\ KI
ORd(e) == /\ kind = 1
          /\ IF On(e.p) THEN i2c' = [i2c EXCEPT ![e.p] = I2cStream(@, e.n)] /\ out' = [ret |-> 0, d |-> I2cStreamVals(i2c[e.p], e.a, e.n)]
             ELSE UNCHANGED i2c /\ out' = [ret |-> -1, d |-> Untouched(e.n)]
          /\ KI
\* a component using I2cTargetCommunicationWithObc
TNew(e) == e.t \notin DOMAIN tg /\ tg' = Put(tg, e.t, [p |-> e.p, a |-> e.a]) /\ i2c' = IConn(e.p, e.a) /\ out' = [ok |-> TRUE] /\ UNCHANGED <<made, kind, uart, gpio, wr, gc>>
TDel(e) == e.t \in DOMAIN tg /\ tg' = Drop(tg, e.t) /\ i2c' = IClose(tg[e.t].p) /\ out' = [ok |-> TRUE] /\ UNCHANGED <<made, kind, uart, gpio, wr, gc>>
\* moved to a new object; the old one is destroyed, which closes nothing
TMove(e) == /\ e.t \in DOMAIN tg /\ e.u \notin DOMAIN tg
            /\ tg' = Put(Drop(tg, e.t), e.u, tg[e.t]) /\ out' = [ok |-> TRUE] /\ UNCHANGED <<made, kind, uart, i2c, gpio, wr, gc>>
TW(e) == e.t \in DOMAIN tg /\ CompW(tg[e.t].p, tg[e.t].a, e.reg, e.d) /\ out' = [ok |-> TRUE] /\ KI
TR(e) == e.t \in DOMAIN tg /\ CompR(tg[e.t].p, e.reg, e.n) /\ out' = [d |-> CompRd(tg[e.t].p, tg[e.t].a, e.reg, e.n)] /\ KI
TC(e) == e.t \in DOMAIN tg /\ UNCHANGED i2c /\ out' = [d |-> CmdRd(tg[e.t].p, tg[e.t].a, e.n)] /\ KI
\* ---- GPIO
GConn(p, g) == IF p \in DOMAIN g THEN g ELSE Put(g, p, FALSE)
GpConn(e) == gpio' = GConn(e.p, gpio) /\ Ret(IF e.p \in DOMAIN gpio THEN -1 ELSE 0) /\ KG
GpW(e) == gpio' = (IF e.p \in DOMAIN gpio THEN [gpio EXCEPT ![e.p] = e.v] ELSE gpio) /\ Ret(IF e.p \in DOMAIN gpio THEN 0 ELSE -1) /\ KG
GpR(e) == UNCHANGED gpio /\ out' = [v |-> e.p \in DOMAIN gpio /\ gpio[e.p]] /\ KG
RECURSIVE GConnAll(_, _)
GConnAll(ps, g) == IF ps = <<>> THEN g ELSE GConnAll(Tail(ps), GConn(ps[1], g))
GNew(e) == gc' = Put(gc, e.g, e.ps) /\ gpio' = GConnAll(e.ps, gpio) /\ out' = [ok |-> TRUE] /\ UNCHANGED <<made, kind, uart, i2c, wr, tg>>
GW(e) == e.g \in DOMAIN gc /\ e.i < Len(gc[e.g]) /\ gpio' = [gpio EXCEPT ![gc[e.g][e.i + 1]] = e.v] /\ out' = [ok |-> TRUE] /\ KG
GR(e) == e.g \in DOMAIN gc /\ e.i < Len(gc[e.g]) /\ UNCHANGED gpio /\ out' = [v |-> gpio[gc[e.g][e.i + 1]]] /\ KG

Do(e) == \/ e.op = "reset" /\ Reset(e)
         \/ made /\ \/ e.op = "conn" /\ Conn(e)
                    \/ e.op = "close" /\ Close(e)
                    \/ e.op = "sfo" /\ SendDn(e)
                    \/ e.op = "sfc" /\ SendUp(e)
                    \/ e.op = "rbc" /\ RecvDn(e)
                    \/ e.op = "rbo" /\ RecvUp(e)
                    \/ e.op = "wnew" /\ WNew(e)
                    \/ e.op = "wdel" /\ WDel(e)
                    \/ e.op = "wrecv" /\ WRecv(e)
                    \/ e.op = "wsend" /\ WSend(e)
                    \/ e.op = "iconn" /\ I2cConn(e)
                    \/ e.op = "iclose" /\ I2cCls(e)
                    \/ e.op = "icw" /\ ICw(e)
                    \/ e.op = "icr" /\ ICr(e)
                    \/ e.op = "icc" /\ ICc(e)
                    \/ e.op = "ocmd" /\ OCmd(e)
                    \/ e.op = "owr" /\ OWr(e)
                    \/ e.op = "ord" /\ ORd(e)
                    \/ e.op = "tnew" /\ TNew(e)
                    \/ e.op = "tdel" /\ TDel(e)
                    \/ e.op = "tmove" /\ TMove(e)
                    \/ e.op = "tw" /\ TW(e)
                    \/ e.op = "tr" /\ TR(e)
                    \/ e.op = "tc" /\ TC(e)
                    \/ e.op = "gconn" /\ GpConn(e)
                    \/ e.op = "gpw" /\ GpW(e)
                    \/ e.op = "gpr" /\ GpR(e)
                    \/ e.op = "gnew" /\ GNew(e)
                    \/ e.op = "gw" /\ GW(e)
                    \/ e.op = "gr" /\ GR(e)
Match(e, o) == e.r = o
=============================================================================
