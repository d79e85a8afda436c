------------------------------- MODULE Power -------------------------------
(* Power ports and the control unit that owns them.  Voltages, powers and
   limits in 1/16 V, W, A.  Port 0 is a default constructed port of its own
   (a component with no power model), the others belong to the control unit.
   Anchors: components/ports/power_port.*, components/real/power/power_control_unit.* *)
EXTENDS VTLib, TLC
VARIABLES port, out
vars == <<port, out>>
New(l, m, w) == [l |-> l, m |-> m, w |-> w, v |-> 0, on |-> FALSE, in |-> 0, id |-> 1]    \* current = in / id
Init == port = EmptyFn /\ out = [ok |-> TRUE]
Vdef == 53                                            \* 3.3 V: the smallest code at or above it
Upd(p) == LET up == p.v >= p.m
              over == IF up THEN 16 * p.w >= p.l * p.v ELSE 0 >= p.l
          IN IF over THEN [p EXCEPT !.v = 0, !.on = FALSE, !.in = 0, !.id = 1]
             ELSE IF up THEN [p EXCEPT !.on = TRUE, !.in = p.w, !.id = p.v]
             ELSE [p EXCEPT !.on = FALSE, !.in = 0, !.id = 1]
Obs(f) == [q \in DOMAIN f |-> f[q]]
Say(ret, f) == out' = [ret |-> ret, ports |-> f]
Reset(e) == port' = (0 :> [New(160, Vdef, 0) EXCEPT !.on = TRUE]) /\ Say(0, port')
Conn(e) == IF e.p \in DOMAIN port THEN Say(-1, port) /\ UNCHANGED port
           ELSE port' = Put(port, e.p, New(e.l, Vdef, 0)) /\ Say(0, port')
ConnF(e) == IF e.p \in DOMAIN port THEN Say(-1, port) /\ UNCHANGED port
            ELSE port' = Put(port, e.p, New(e.l, e.m, e.w)) /\ Say(0, port')
Close(e) == IF e.p \in DOMAIN port THEN port' = Drop(port, e.p) /\ Say(0, port') ELSE Say(-1, port) /\ UNCHANGED port
Get(e) == Say(IF e.p \in DOMAIN port THEN 1 ELSE 0, port) /\ UNCHANGED port
On(e, f, upd) == LET p == IF upd THEN Upd(f) ELSE f IN
                 /\ port' = [port EXCEPT ![e.p] = p]
                 /\ Say(IF upd THEN (IF p.on THEN 1 ELSE 0) ELSE 0, port')
Change(e) == /\ e.p \in DOMAIN port
             /\ LET p == port[e.p] IN
                CASE e.op = "volt" -> On(e, [p EXCEPT !.v = e.x], TRUE)
                  [] e.op = "upd" -> On(e, p, TRUE)
                  [] e.op = "setp" -> On(e, [p EXCEPT !.w = e.x], FALSE)
                  [] e.op = "addp" -> On(e, [p EXCEPT !.w = p.w + e.x], FALSE)
                  [] e.op = "subp" -> On(e, [p EXCEPT !.w = Max2(p.w - e.x, 0)], FALSE)
                  [] e.op = "setm" -> On(e, [p EXCEPT !.m = e.x], FALSE)
                  [] e.op = "setl" -> On(e, [p EXCEPT !.l = e.x], FALSE)
                  [] e.op = "ini" -> On(e, [p EXCEPT !.m = e.m, !.w = e.w], FALSE)
Tick(e) == Say(0, port) /\ UNCHANGED port              \* the control unit's own run changes nothing
Ready == DOMAIN port # {}
Do(e) == \/ e.op = "reset" /\ Reset(e)
         \/ Ready /\ \/ e.op = "conn" /\ Conn(e)
                     \/ e.op = "connf" /\ ConnF(e)
                     \/ e.op = "close" /\ Close(e)
                     \/ e.op = "get" /\ Get(e)
                     \/ e.op = "tick" /\ Tick(e)
                     \/ e.op \in {"volt", "upd", "setp", "addp", "subp", "setm", "setl", "ini"} /\ Change(e)
\* observed per port: <<id, voltage, on, assumed power, current * 65536>>
PortOk(r, q, p) == /\ r[1] = q /\ r[2] = p.v /\ r[3] = p.on /\ r[4] = p.w
                   /\ OkNum(r[5]) /\ Abs(r[5]) < 100000000
                   /\ IF p.in = 0 THEN r[5] = 0 ELSE r[5] = (65536 * p.in) \div p.id \/ r[5] = (65536 * p.in) \div p.id + 1
Match(e, o) == /\ e.r.ret = o.ret /\ Len(e.r.ports) = Cardinality(DOMAIN o.ports)
               /\ \A i \in 1..Len(e.r.ports) : e.r.ports[i][1] \in DOMAIN o.ports /\ PortOk(e.r.ports[i], e.r.ports[i][1], o.ports[e.r.ports[i][1]])
=============================================================================
