-------------------------------- MODULE Tables --------------------------------
(* Orbits and clocks out of tables of samples: the GNSS satellites (SP3 files, one per day) and the orbit of a spacecraft
   given as a time series. Time is counted in quarters of the interval between samples (1440 s); sample i is at 4 * i.
   A value between samples is the one of the polynomial (or trigonometric polynomial) through n neighbouring samples: the
   specification leaves open which neighbours, as long as the instant is within one sample of their middle, or they are the
   first or last there are. Values are integers up to 1000.
   Anchors: environment/global/gnss_satellites.cpp, dynamics/orbit/time_series_file_orbit_propagation.cpp,
            math_physics/{math/interpolation,orbit/interpolation_orbit}.cpp                                           *)
EXTENDS VTGeo, TLC
VARIABLES tb, t, on, base, out
vars == <<tb, t, on, base, out>>
None == [op |-> "none"]
\* --- weights of the samples w..w+n-1 (numbered from 0) at the time x
SDiv(a, d) == IF d < 0 THEN RDiv(-a, -d) ELSE RDiv(a, d)
RECURSIVE Poly(_, _, _, _, _, _)
Poly(w, n, k, x, j, acc) == IF j = n THEN acc ELSE Poly(w, n, k, x, j + 1, IF j = k THEN acc ELSE TLCEval(SDiv(acc * (x - 4 * (w + j)), 4 * (k - j))))
Ang(u, q) == LET a == Abs(q) s == (a * (u \div 1000)) + (a * (u % 1000)) \div 1000 IN IF q < 0 THEN -s ELSE s
Times(a, r) == LET b == Abs(a) c == Abs(r) v == ((b \div 1000) * c) \div 10 + ((b % 1000) * c + 5000) \div 10000 IN IF (a < 0) = (r < 0) THEN v ELSE -v
Ratio(u, p, q) == SDiv(SinF(Ang(u, p)) * 10000, SinF(Ang(u, q)))
RECURSIVE Trig(_, _, _, _, _, _, _)
Trig(u, w, n, k, x, j, acc) == IF j = n THEN acc ELSE Trig(u, w, n, k, x, j + 1, IF j = k THEN acc ELSE TLCEval(Times(acc, Ratio(u, x - 4 * (w + j), 4 * (k - j)))))
Weights(trig, u, w, n, x) == [k \in 1..n |-> IF trig THEN Trig(u, w, n, k - 1, x, 0, 10000) ELSE Poly(w, n, k - 1, x, 0, 100000)]
RECURSIVE Sum(_, _, _, _, _)
Sum(rows, c, w, ws, k) == IF k > Len(ws) THEN 0 ELSE ws[k] * rows[w + k][c] + Sum(rows, c, w, ws, k + 1)
\* observed columns `at` (offset in the rows) against a window
Agrees(rows, off, obs, trig, u, w, n, x) == LET ws == TLCEval(Weights(trig, u, w, n, x)) IN
   \A c \in 1..Len(obs) : OkNum(obs[c]) /\ IF trig THEN Near(obs[c], RDiv(Sum(rows, off + c, w, ws, 1), 10000), 20) ELSE Near(obs[c], RDiv(Sum(rows, off + c, w, ws, 1), 100000), 6)
Mid(w, n) == 8 * w + 4 * (n - 1)                \* twice the middle of a window
Fits(all, n, w, x) == \/ Abs(Mid(w, n) - 2 * x) <= 8
                      \/ w = 0 /\ 2 * x <= Mid(0, n) + 8
                      \/ w = all - n /\ 2 * x >= Mid(w, n) - 8
Windows(all, n, x) == {w \in 0..(all - n) : Fits(all, n, w, x)}
\* --- the GNSS satellites: nine samples; positions by trigonometric, clocks by ordinary polynomials
Gn == 9
GWin(b, bs, x) == Windows(Len(b.rows), Gn, x) \cup (IF bs > 0 /\ 2 * x <= Mid(bs, Gn) + 8 /\ bs + Gn <= Len(b.rows) THEN {bs} ELSE {})
Inside(b, x) == x >= 0 /\ x <= 4 * (Len(b.rows) - 1)
Cols(rows, i) == [j \in 1..Len(rows) |-> rows[j][i]]
ZeroSat == [p |-> <<0, 0, 0>>, c |-> 0]
GOk(obs, b, o, bs, x, now) == IF ~o THEN \A i \in 1..Len(obs) : obs[i] = ZeroSat
   \* before the start of the simulation there need not be anything
   ELSE IF x < b.t /\ \A i \in 1..Len(obs) : obs[i] = ZeroSat THEN TRUE
   ELSE IF ~Inside(b, x) \/ ~Inside(b, now) THEN TRUE
   ELSE /\ \A i \in 1..Len(obs) : i > b.sats => obs[i] = ZeroSat
        /\ \E w \in GWin(b, bs, now) : \A i \in 1..b.sats : LET rs == Cols(b.rows, i) IN Agrees(rs, 0, obs[i].p, TRUE, 2991027, w, Gn, x) /\ Agrees(rs, 3, <<obs[i].c>>, FALSE, 0, w, Gn, x)
\* --- the time series: n samples, both kinds; before and after the table its first and last row
Sn(b) == Min2(b.n, Len(b.rows))
SOk(obs, b, x) == IF x <= 0 THEN \A c \in 1..6 : Near(obs[c], b.rows[1][c], 1)
   ELSE IF x >= 4 * (Len(b.rows) - 1) THEN \A c \in 1..6 : Near(obs[c], b.rows[Len(b.rows)][c], 1)
   ELSE LET tr == b.m = 1 n == IF tr /\ Sn(b) % 2 = 0 THEN Sn(b) - 1 ELSE Sn(b) IN
        \E w \in 0..(Len(b.rows) - n) : (Fits(Len(b.rows), n, w, x) \/ (n < Sn(b) /\ \E v \in Windows(Len(b.rows), Sn(b), x) : w \in {v, v + 1})) /\ Agrees(b.rows, 0, obs, tr, b.u, w, n, x)
Init == tb = None /\ t = 0 /\ on = FALSE /\ base = 0 /\ out = [k |-> "none"]
Do(e) ==
  \/ e.op = "reset" /\ tb' = None /\ t' = 0 /\ on' = FALSE /\ base' = 0 /\ out' = [k |-> "none"]
  \/ e.op = "series" /\ tb' = e /\ t' = e.t /\ on' = TRUE /\ base' = 0 /\ out' = [k |-> "s"]
  \* each day's file has 15 samples; the simulation has to start on a day there is a file of
  \/ e.op = "gnss" /\ tb' = e /\ t' = e.t /\ on' = (e.on /\ e.t >= 0 /\ e.t < 60 * (Len(e.rows) \div 15)) /\ base' = (IF e.t < 0 THEN 0 ELSE 15 * (e.t \div 60)) /\ out' = [k |-> "g"]
  \/ e.op = "go" /\ tb.op = "series" /\ e.t >= t /\ t' = e.t /\ UNCHANGED <<tb, on, base>> /\ out' = [k |-> "s"]
  \/ e.op = "step" /\ tb.op = "gnss" /\ t' = t + tb.s /\ UNCHANGED <<tb, on, base>> /\ out' = [k |-> "g"]
  \/ e.op = "at" /\ tb.op = "gnss" /\ UNCHANGED <<tb, t, on, base>> /\ out' = [k |-> "at"]
Match(e, o) ==
  CASE o.k = "none" -> TRUE
    [] o.k = "s" -> SOk(e.r.pv, tb', t')
    [] o.k = "g" -> e.r.log = TRUE /\ e.r.eci = TRUE /\ e.r.n = (IF on' THEN tb'.sats ELSE 0) /\ GOk(e.r.s, tb', on', base', t', t')
    [] OTHER -> GOk(e.r.s, tb, on, base, t + e.d, t)
=============================================================================
