------------------------------- MODULE Calendar -------------------------------
(* Instants as seconds since 1970, as calendar dates, as weeks of GPS, and days of a year as numbers in file names.
   An instant: d days since 1970, s seconds of the day, u 64ths of a second.
   Anchors: math_physics/time_system/{epoch_time,date_time_format,gps_time}.*, gnss/igs_product_name_handling.hpp        *)
EXTENDS VTLib, TLC
VARIABLES t, out
vars == <<t, out>>
None == [none |-> TRUE]
Is(x) == "none" \notin DOMAIN x
Leap(y) == y % 4 = 0                                       \* 1970 to 2099
YearLen(y) == IF Leap(y) THEN 366 ELSE 365
MonthLen(y, m) == CASE m = 2 -> (IF Leap(y) THEN 29 ELSE 28) [] m \in {4, 6, 9, 11} -> 30 [] OTHER -> 31
RECURSIVE DayOfYear(_, _)
DayOfYear(y, m) == IF m = 1 THEN 0 ELSE MonthLen(y, m - 1) + DayOfYear(y, m - 1)
Days(y, m, d) == 365 * (y - 1970) + Cardinality({x \in 1970..(y - 1) : Leap(x)}) + DayOfYear(y, m) + d - 1
YearOf(n) == CHOOSE y \in ((n \div 366) + 1970)..((n \div 365) + 1970) : Days(y, 1, 1) <= n /\ n < Days(y + 1, 1, 1)
Civil(n) == LET y == YearOf(n) k == n - Days(y, 1, 1) m == CHOOSE x \in 1..12 : DayOfYear(y, x) <= k /\ k < DayOfYear(y, x) + MonthLen(y, x) IN <<y, m, k - DayOfYear(y, m) + 1>>
Norm(d, s, u) == LET s1 == s + (u \div 64) d1 == d + (s1 \div 86400) IN [d |-> d1, s |-> s1 % 86400, u |-> u % 64]
Plus(a, b) == Norm(a.d + b.d, a.s + b.s, a.u + b.u)
Minus(a, b) == Norm(a.d - b.d, a.s - b.s, a.u - b.u)
Less(a, b) == a.d < b.d \/ (a.d = b.d /\ (a.s < b.s \/ (a.s = b.s /\ a.u < b.u)))
Date(a) == Civil(a.d) \o <<a.s \div 3600, (a.s % 3600) \div 60, (a.s % 60) * 64 + a.u>>
FromDate(x) == [d |-> Days(x[1], x[2], x[3]), s |-> 3600 * x[4] + 60 * x[5] + (x[6] \div 64), u |-> x[6] % 64]
Gps0 == Days(1980, 1, 6)
Week(a) == <<(a.d - Gps0) \div 7, ((a.d - Gps0) % 7) * 86400 + a.s, a.u>>
FromWeek(w, s, u) == Norm(Gps0 + 7 * w, s, u)
P2(n) == (IF n < 10 THEN "0" ELSE "") \o ToString(n)
Text(x) == ToString(x[1]) \o "/" \o P2(x[2]) \o "/" \o P2(x[3]) \o " " \o P2(x[4]) \o ":" \o P2(x[5]) \o ":"
Utc(a) == Minus(a, [d |-> 0, s |-> 18, u |-> 0])
View1(a, r) ==
  /\ r.t = <<a.d, a.s, a.u>> /\ r.date = Date(a) /\ r.text = Text(Date(a)) /\ r.back = Date(a)[6] /\ r.ex = a.u
  /\ (a.d >= Gps0 => r.gps = Week(a) /\ r.utc = Date(Utc(a)))
\* --- days of a year: year * 1000 + day
NextDay(y, n) == IF n < YearLen(y) THEN 1000 * y + n + 1 ELSE 1000 * (y + 1) + 1
Init == t = None /\ out = [k |-> "none"]
Do(e) ==
  \/ e.op = "reset" /\ t' = [d |-> 0, s |-> 0, u |-> 0] /\ out' = [k |-> "none"]
  \/ /\ Is(t)
     /\ \/ e.op = "date" /\ t' = FromDate(e.x) /\ out' = [k |-> "view"]
        \/ e.op = "parse" /\ t' = FromDate(e.x) /\ out' = [k |-> "view"]
        \/ e.op = "gps" /\ t' = FromWeek(e.w, e.s, e.u) /\ out' = [k |-> "view"]
        \/ e.op = "plus" /\ t' = Plus(t, [d |-> e.d, s |-> e.s, u |-> e.u]) /\ out' = [k |-> "view"]
        \/ /\ e.op = "minus" /\ ~Less(t, [d |-> e.d, s |-> e.s, u |-> e.u])
           /\ t' = Minus(t, [d |-> e.d, s |-> e.s, u |-> e.u]) /\ out' = [k |-> "view"]
        \/ e.op = "cmp" /\ out' = [k |-> "cmp"] /\ UNCHANGED t
        \/ e.op = "doy" /\ out' = [k |-> "doy"] /\ UNCHANGED t
        \/ e.op = "name" /\ out' = [k |-> "name"] /\ UNCHANGED t
Match(e, o) ==
  CASE o.k = "none" -> TRUE
    [] o.k = "view" -> View1(t', e.r)
    [] o.k = "cmp" -> LET b == [d |-> e.d, s |-> e.s, u |-> e.u] l == Less(t, b) g == Less(b, t) IN e.r = [lt |-> l, gt |-> g, le |-> ~g, ge |-> ~l, eq |-> t = b, ne |-> t # b]
    [] o.k = "doy" -> e.r = [m |-> 1000 * e.y + e.n, y |-> e.y, n |-> e.n, next |-> NextDay(e.y, e.n)]
    [] OTHER -> e.r.s = e.head \o "_" \o ToString(1000 * e.y + e.n) \o "0000_01D_" \o (IF e.p = "" THEN "15M" ELSE e.p) \o "_" \o (IF e.f = "" THEN "ORB.SP3" ELSE e.f)
=============================================================================
