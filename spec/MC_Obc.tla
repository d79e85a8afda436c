------------------------------- MODULE MC_Obc -------------------------------
EXTENDS Obc, VTGen
CONSTANTS Fam, Ports, Kinds
VARIABLES hist, owner, cnt
Datas == {<<>>, <<7>>, <<8, 9>>}
Ops == IF ~made THEN {[op |-> "reset", kind |-> z] : z \in Kinds}
  ELSE IF Fam = 1 THEN \* raw UART ports
       {[op |-> "conn", p |-> p, n |-> 3] : p \in Ports} \cup {[op |-> "close", p |-> p] : p \in Ports}
       \cup {[op |-> "sfo", p |-> p, d |-> d, off |-> 0] : p \in Ports, d \in Datas \ {<<8, 9>>}} \cup {[op |-> "sfc", p |-> p, d |-> <<8, 9>>, off |-> 1] : p \in Ports}
       \cup {[op |-> "rbc", p |-> p, n |-> 2, off |-> 0] : p \in Ports} \cup {[op |-> "rbo", p |-> p, n |-> 1, off |-> 1] : p \in Ports}
  ELSE IF Fam = 2 THEN \* UART base class
       {[op |-> "wnew", w |-> w, p |-> p, tx |-> t, rx |-> 6 - t] : w \in {1, 2} \ DOMAIN wr, p \in Ports, t \in {2, 4}}
       \cup {[op |-> "wdel", w |-> w] : w \in DOMAIN wr}
       \cup {[op |-> "wrecv", w |-> w, off |-> o, n |-> n] : w \in DOMAIN wr, o \in {0, 1, 3, 5}, n \in {1, 2, 4}}
       \cup {[op |-> "wsend", w |-> w, off |-> o, d |-> d] : w \in DOMAIN wr, o \in {0, 1, 3}, d \in {<<>>, <<8, 9>>, <<1, 2, 3>>}}
       \cup {[op |-> "sfo", p |-> p, d |-> <<7>>, off |-> 0] : p \in Ports} \cup {[op |-> "rbo", p |-> p, n |-> 2, off |-> 0] : p \in Ports} \cup {[op |-> "close", p |-> p] : p \in Ports}
  ELSE IF Fam = 3 THEN \* I2C
       {[op |-> "iconn", p |-> p, a |-> a] : p \in Ports, a \in {1, 2}} \cup {[op |-> "iclose", p |-> p] : p \in Ports}
       \cup {[op |-> "icw", p |-> p, a |-> a, reg |-> 1, d |-> <<4, 5>>] : p \in Ports, a \in {1, 2}} \cup {[op |-> "icr", p |-> p, a |-> a, reg |-> g, n |-> 2] : p \in Ports, a \in {1, 2}, g \in {1, 2}}
       \cup (IF kind = 1 THEN {[op |-> "owr", p |-> p, a |-> 1, d |-> d] : p \in Ports, d \in {<<2>>, <<2, 6>>}} \cup {[op |-> "ord", p |-> p, a |-> 1, n |-> 2] : p \in Ports}
                              \cup {[op |-> "ocmd", p |-> p, a |-> 2, d |-> d] : p \in Ports, d \in {<<1>>, <<1, 3>>, <<1, 2, 3>>}} ELSE {})
       \cup {[op |-> "icc", p |-> p, a |-> 2, n |-> 3] : p \in Ports}
       \cup {[op |-> "tnew", t |-> t, p |-> p, a |-> t] : t \in {1, 2} \ DOMAIN tg, p \in Ports} \cup {[op |-> "tdel", t |-> t] : t \in DOMAIN tg}
       \cup {[op |-> "tmove", t |-> t, u |-> u] : t \in DOMAIN tg, u \in {1, 2} \ DOMAIN tg}
       \cup {[op |-> "tw", t |-> t, reg |-> 2, d |-> <<9>>] : t \in DOMAIN tg} \cup {[op |-> "tr", t |-> t, reg |-> 1, n |-> 2] : t \in DOMAIN tg} \cup {[op |-> "tc", t |-> t, n |-> 2] : t \in DOMAIN tg}
  ELSE {[op |-> "gconn", p |-> p] : p \in Ports} \cup {[op |-> "gpw", p |-> p, v |-> v] : p \in Ports, v \in BOOLEAN} \cup {[op |-> "gpr", p |-> p] : p \in Ports}
       \cup {[op |-> "gnew", g |-> g, ps |-> <<g, g + 1>>] : g \in {1, 2} \ DOMAIN gc} \cup {[op |-> "gw", g |-> g, i |-> i, v |-> v] : g \in DOMAIN gc, i \in {0, 1}, v \in BOOLEAN}
       \cup {[op |-> "gr", g |-> g, i |-> i] : g \in DOMAIN gc, i \in {0, 1}}
MCInit == Init /\ hist = <<>> /\ owner = EmptyFn /\ cnt = EmptyFn
\* ghosts: cnt = bytes waiting per port, had the pipes never overflowed
MCNext == \E e \in Ops : /\ Do(e) /\ hist' = Append(hist, e) /\ UNCHANGED cnt
                         /\ owner' = IF e.op = "wnew" /\ out'.conn THEN Put(owner, e.p, e.w) ELSE owner
View == <<made, kind, uart, i2c, gpio, wr, tg, gc>>
EmitStep == EmitHist(hist')
EmitLong == Len(hist) = GenLen => EmitHist(hist)
\* --- properties
PipesOk == \A p \in DOMAIN uart : Len(uart[p].up.q) < uart[p].up.cap /\ Len(uart[p].dn.q) < uart[p].dn.cap
\* a component connected to a port found it free: at most one component per port unless it was closed under it
NoSteal == \A w \in DOMAIN wr : wr[w].conn => wr[w].p \in DOMAIN owner
Regs == \A p \in DOMAIN i2c : \A k \in DOMAIN i2c[p].reg : i2c[p].reg[k] # 0 /\ k[2] < 255
Inv == PipesOk /\ NoSteal /\ Regs
=============================================================================
