------------------------------- MODULE Calendar -------------------------------
(* The proleptic Gregorian calendar and UTC instants.  An instant is a pair   *)
(* <<s, u>>: whole seconds and microseconds (0..999999) after a base.         *)
EXTENDS Integers, Sequences

IsLeap(y) == (y % 4 = 0 /\ y % 100 # 0) \/ y % 400 = 0
DaysIn(y) == IF IsLeap(y) THEN 366 ELSE 365
\* days before January 1 of year y, counted from January 1 of year 1
DaysBefore(y) == 365 * (y - 1) + (y - 1) \div 4 - (y - 1) \div 100 + (y - 1) \div 400
DayNumber(y, doy) == DaysBefore(y) + doy - 1
MonthLength(y, m) == CASE m = 2 -> IF IsLeap(y) THEN 29 ELSE 28
                       [] m \in {4, 6, 9, 11} -> 30
                       [] OTHER -> 31
RECURSIVE MonthStart(_, _)   \* day of year before the first of month m
MonthStart(y, m) == IF m = 1 THEN 0 ELSE MonthStart(y, m - 1) + MonthLength(y, m - 1)
DayOfYear(y, m, d) == MonthStart(y, m) + d
YearOf(n) == CHOOSE y \in (n \div 366)..((n \div 365) + 1) : DaysBefore(y) <= n /\ n < DaysBefore(y + 1)
ValidDate(y, m, d) == m \in 1..12 /\ d >= 1 /\ d <= MonthLength(y, m)

Million == 1000000
TNorm(s, u) == <<s + (u \div Million), u % Million>>
TAdd(a, b) == TNorm(a[1] + b[1], a[2] + b[2])
TScale(p, k) == TNorm(p[1] * k, p[2] * k)
TSub(a, b) == TNorm(a[1] - b[1], a[2] - b[2])
TLess(a, b) == a[1] < b[1] \/ (a[1] = b[1] /\ a[2] < b[2])
\* instant of calendar fields, in seconds after day number base; a second of 60 is the one after 59
Instant(base, y, doy, h, m, s, us) == <<(DayNumber(y, doy) - base) * 86400 + h * 3600 + m * 60 + s, us>>
=============================================================================
