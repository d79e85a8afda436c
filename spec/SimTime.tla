------------------------------ MODULE SimTime ------------------------------
(* The simulation clock: elapsed time, end of simulation, the five rate groups
   and the calendar.  Times are integers in units of 1/8 s (125 ms).
   Anchor: environment/global/simulation_time.*, math_physics/orbit/sgp4/sgp4ext.cpp *)
EXTENDS VTLib, TLC
VARIABLES cfg, el, phase, cal, first, out
vars == <<cfg, el, phase, cal, first, out>>
Groups == {"att", "orb", "th", "comp"}

(* --- calendar, as an odometer: y/m/d and milliseconds of the day *)
DaysIn(y, m) == IF m = 2 THEN (IF y % 4 = 0 THEN 29 ELSE 28) ELSE IF m \in {4, 6, 9, 11} THEN 30 ELSE 31   \* 1901..2099
NextDay(c) == IF c.d < DaysIn(c.y, c.m) THEN [c EXCEPT !.d = c.d + 1]
              ELSE IF c.m < 12 THEN [c EXCEPT !.d = 1, !.m = c.m + 1] ELSE [c EXCEPT !.d = 1, !.m = 1, !.y = c.y + 1]
RECURSIVE AddDays(_, _)
AddDays(c, n) == IF n = 0 THEN c ELSE AddDays(NextDay(c), n - 1)
Advance(c, units) == LET days == units \div 691200
                         ms == c.ms + (units % 691200) * 125
                     IN [AddDays(c, days + (ms \div 86400000)) EXCEPT !.ms = ms % 86400000]
CumDays(y, m) == LET RECURSIVE S(_)
                     S(k) == IF k = 0 THEN 0 ELSE DaysIn(y, k) + S(k - 1)
                 IN S(m - 1)
Doy(c) == CumDays(c.y, c.m) + c.d
DayNum(c) == 365 * (c.y - 1900) + ((c.y - 1901) \div 4) + Doy(c)      \* 1 on 1900-01-01
Instant(c) == <<DayNum(c), c.ms>>
(* difference of two instants in ms, saturated at a day or more *)
DiffMs(dn1, ms1, dn2, ms2) == IF Abs(dn1 - dn2) > 1 THEN 86400000 ELSE (dn1 - dn2) * 86400000 + (ms1 - ms2)

(* Greenwich mean sidereal angle, in 1e-5 degree (IAU-82) *)
Gmst(c) == LET d == DayNum(c) - 36525                        \* whole days since 2000-01-01 00:00 (= J2000 - 0.5 d)
               q == (39 * (d \div 100) * (d \div 100)) \div 133407   \* quadratic term
               a == d \div 1000  b == d % 1000
               s == c.ms \div 1000
               base == 9996779                                \* GMST at 2000-01-01 00:00 UT: 99.96779 deg
           IN (base + q + a * 26564737 - ((a * 371) \div 1000) + b * 98564 + ((b * 737) \div 1000)
               + s * 417 + ((s * 8075) \div 10000) + (((c.ms % 1000) * 418) \div 1000)) % 36000000
AngDist(a, b) == LET x == (a - b) % 36000000 IN Min2(x, 36000000 - x)

N(g) == (cfg[g] + cfg.step - 1) \div cfg.step       \* steps per interval, rounded up
Init == cfg = [on |-> FALSE] /\ el = 0 /\ phase = EmptyFn /\ cal = EmptyFn /\ first = TRUE /\ out = [ok |-> TRUE]

StartCal(e) == [y |-> e.start[1], m |-> e.start[2], d |-> e.start[3], ms |-> e.start[4] * 3600000 + e.start[5] * 60000 + e.start[6]]
Fresh == [att |-> 1, orb |-> 1, th |-> 1, comp |-> 1, log |-> 0, disp |-> 0]
Reset(e) == /\ cfg' = [on |-> TRUE, end |-> e.end, step |-> e.step, att |-> e.att, orb |-> e.orb, th |-> e.th, comp |-> e.comp, log |-> e.log, start |-> StartCal(e)]
            /\ el' = 0 /\ phase' = Fresh /\ first' = TRUE
            /\ cal' = StartCal(e)
            /\ out' = [el |-> 0, log |-> TRUE, fin |-> FALSE, cal |-> StartCal(e), freq |-> 8 \div e.comp, cfg |-> <<e.end, e.step, e.att, e.orb, e.th, e.comp>>]
(* a new case: the clock starts again *)
Restart(e) == /\ el' = 0 /\ phase' = Fresh /\ cal' = cfg.start /\ first' = TRUE
              /\ out' = [el |-> 0, log |-> TRUE, fl |-> <<FALSE, FALSE, FALSE, FALSE>>]
              /\ UNCHANGED cfg
Fire(g) == (phase[g] + 1) * cfg.step >= cfg[g]
Step(e) ==
  LET el2 == el + cfg.step
      dispn == phase.disp + 1
      disp == dispn * 100 >= (cfg.end + cfg.step - 1) \div cfg.step
  IN /\ el' = el2
     /\ phase' = [g \in DOMAIN phase |-> IF g = "disp" THEN (IF disp THEN dispn - ((cfg.end \div cfg.step) \div 100) ELSE dispn)
                                         ELSE IF Fire(g) THEN 0 ELSE phase[g] + 1]
     /\ cal' = Advance(cal, cfg.step)
     /\ first' = FALSE
     /\ out' = [el |-> el2, fin |-> el2 > cfg.end, run |-> TRUE, disp |-> disp, log |-> Fire("log"),
                fl |-> <<Fire("att"), Fire("orb"), Fire("th"), Fire("comp")>>, cal |-> Advance(cal, cfg.step),
                prog |-> IF el2 > 20000000 THEN -1 ELSE (el2 * 100) \div cfg.end]
     /\ UNCHANGED cfg

Do(e) == \/ e.op = "reset" /\ Reset(e)
         \/ cfg.on /\ \/ e.op = "step" /\ Step(e)
                      \/ e.op = "restart" /\ Restart(e)

(* observed calendar r.cal = [y, m, d, h, mi, ms], Julian day r.jd = [whole day number, ms of day] *)
CalOk(r, c) == LET oc == [y |-> r[1], m |-> r[2], d |-> r[3], ms |-> r[4] * 3600000 + r[5] * 60000 + r[6]] IN
               /\ r[1] \in 1900..2100 /\ r[2] \in 1..12 /\ r[3] \in 1..DaysIn(r[1], r[2])
               /\ r[4] \in 0..23 /\ r[5] \in 0..59 /\ r[6] \in (-1)..60000
               /\ Abs(DiffMs(DayNum(oc), oc.ms, DayNum(c), c.ms)) <= 2
JdOk(r, c) == Abs(DiffMs(r[1] - 2415020, r[2], DayNum(c), c.ms)) <= 1
DecOk(r, c) == LET want == Doy(c) * 10000 + (c.ms \div 8640)   \* day of year in 1e-4 day
                   have == r[2] + (r[1] - c.y) * 3652500
               IN Abs(have - want) <= 2 \/ (Abs(c.ms - 43200000) > 43199990 /\ Abs(have - want) \in 3650000..3665000)
ProgOk(p, o) == IF o.prog = -1 \/ p = o.prog THEN TRUE ELSE (o.el * 100) % cfg.end = 0 /\ p = o.prog - 1   \* floor of a rounded quotient
Match(e, o) ==
  LET r == e.r IN
  IF e.op = "reset" THEN /\ r.el = o.el /\ r.log = o.log /\ r.fin = o.fin /\ r.freq = o.freq /\ r.cfg = o.cfg
                         /\ CalOk(r.cal, o.cal) /\ JdOk(r.jd, o.cal) /\ AngDist(r.gst, Gmst(o.cal)) <= 10 /\ DecOk(r.dec, o.cal)
  ELSE IF e.op = "restart" THEN r = o
  ELSE /\ r.el = o.el /\ r.fin = o.fin /\ r.run = o.run /\ r.disp = o.disp /\ r.log = o.log /\ r.fl = o.fl
       /\ r.et = o.el
       /\ ProgOk(r.prog, o)
       /\ CalOk(r.cal, o.cal) /\ CalOk(r.lcal, o.cal) /\ JdOk(r.jd, o.cal) /\ AngDist(r.gst, Gmst(o.cal)) <= 10 /\ DecOk(r.dec, o.cal)
=============================================================================
