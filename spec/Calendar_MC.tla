----------------------------- MODULE Calendar_MC -----------------------------
(* The calendar arithmetic against a day by day odometer from year 1, for two *)
(* whole 400 year cycles, and the cycle for the rest.                         *)
EXTENDS IsoTime
CONSTANT LastYear
VARIABLES y, m, d, doy, n
vars == <<y, m, d, doy, n>>
Init == y = 1 /\ m = 1 /\ d = 1 /\ doy = 1 /\ n = 0
Next == /\ y < LastYear /\ n' = n + 1
        /\ IF d < MonthLength(y, m) THEN d' = d + 1 /\ m' = m /\ y' = y /\ doy' = doy + 1
           ELSE IF m < 12 THEN d' = 1 /\ m' = m + 1 /\ y' = y /\ doy' = doy + 1
           ELSE d' = 1 /\ m' = 1 /\ y' = y + 1 /\ doy' = 1
Spec == Init /\ [][Next]_vars
Agree == /\ DayNumber(y, doy) = n /\ DayOfYear(y, m, d) = doy /\ doy <= DaysIn(y) /\ YearOf(n) = y
         /\ (doy = DaysIn(y)) = (m = 12 /\ d = 31)
ASSUME \A k \in 1..9600 : DaysBefore(k + 400) = DaysBefore(k) + 146097
ASSUME \A k \in 1..9999 : DaysBefore(k + 1) = DaysBefore(k) + DaysIn(k)
ASSUME DayNumber(1970, 1) = 719162 /\ DayNumber(2000, 60) = 730178
\* the text reader
T(s) == s
ASSUME LET p == IsoParse(<<50,48,50,52,45,48,50,45,50,57,84,50,51,58,53,57,58,53,57,46,53,45,48,49,58,51,48>>) \* 2024-02-29T23:59:59.5-01:30
       IN p.ok /\ p.us = 500000 /\ p.off = -5400 /\ UtcOf(p) = <<DayNumber(2024, 61), 5399, 500000>>
ASSUME Span(3, 1, 3) = <<1, 0>> /\ Span(1, 1, 3) = <<0, 333333>> /\ Span(2, 5, 4) = <<2, 500000>>
=============================================================================
