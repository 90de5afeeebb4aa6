-------------------------------- MODULE IsoTime --------------------------------
(* ISO 8601 date-times in calendar form, as text (character codes) and as     *)
(* instants <<day, second of day, microsecond>> in UTC.                       *)
EXTENDS Calendar

Digit(c) == c >= 48 /\ c <= 57
Digits(t, i, k) == i + k - 1 <= Len(t) /\ \A j \in i..i + k - 1 : Digit(t[j])
RECURSIVE NumAt(_, _, _)
NumAt(t, i, k) == IF k = 0 THEN 0 ELSE 10 * NumAt(t, i, k - 1) + t[i + k - 1] - 48
At(t, i, c) == i <= Len(t) /\ t[i] = c
COLON == 58   DASH == 45   DOT == 46   COMMA == 44   PLUS == 43   LETTERZ == 90   LETTERT == 84   SPACE == 32

NotIso == [ok |-> FALSE]
\* microseconds of the fraction starting at i, and where it ends
RECURSIVE DigitRun(_, _)
DigitRun(t, i) == IF i <= Len(t) /\ Digit(t[i]) THEN 1 + DigitRun(t, i + 1) ELSE 0
Fraction(t, i) ==
  LET k == DigitRun(t, i)
      six == [j \in 1..6 |-> IF j <= k THEN t[i + j - 1] ELSE 48]
  IN [us |-> NumAt(six, 1, 6), next |-> i + k, some |-> k > 0]
\* hours, minutes, seconds, microseconds from position i
Clock(t, i) ==
  IF ~Digits(t, i, 2) THEN NotIso ELSE
  LET h == NumAt(t, i, 2)
      ext == At(t, i + 2, COLON)
      sep == IF ext THEN 1 ELSE 0
      mi == i + 2 + sep
      hasM == Digits(t, mi, 2) /\ (ext \/ Digits(t, i, 4))
      si == mi + 2 + sep
      hasS == hasM /\ Digits(t, si, 2) /\ (~ext \/ At(t, mi + 2, COLON))
      fi == si + 2
      hasF == hasS /\ (At(t, fi, DOT) \/ At(t, fi, COMMA)) /\ Digits(t, fi + 1, 1)
      f == IF hasF THEN Fraction(t, fi + 1) ELSE [us |-> 0, next |-> 0, some |-> FALSE]
  IN [ok |-> ext => hasM, h |-> h, m |-> IF hasM THEN NumAt(t, mi, 2) ELSE 0, s |-> IF hasS THEN NumAt(t, si, 2) ELSE 0,
      us |-> f.us, next |-> IF hasF THEN f.next ELSE IF hasS THEN fi ELSE IF hasM THEN mi + 2 ELSE i + 2]
\* date, optional time, optional offset.  off: seconds east of UTC
IsoParse(t) ==
  LET ext == Digits(t, 1, 4) /\ At(t, 5, DASH) /\ Digits(t, 6, 2) /\ At(t, 8, DASH) /\ Digits(t, 9, 2)
      bas == Digits(t, 1, 8)
      y == NumAt(t, 1, 4)
      m == IF ext THEN NumAt(t, 6, 2) ELSE NumAt(t, 5, 2)
      d == IF ext THEN NumAt(t, 9, 2) ELSE NumAt(t, 7, 2)
      ti == IF ext THEN 11 ELSE 9
      date == [ok |-> TRUE, y |-> y, m |-> m, d |-> d, h |-> 0, mi |-> 0, s |-> 0, us |-> 0, off |-> 0]
  IN IF ~(ext \/ bas) THEN NotIso
     ELSE IF ~(y >= 1 /\ ValidDate(y, m, d)) THEN NotIso
     ELSE IF Len(t) = ti - 1 THEN date
     ELSE IF ~(At(t, ti, LETTERT) \/ At(t, ti, SPACE)) THEN NotIso
     ELSE LET c == Clock(t, ti + 1)
          IN IF ~c.ok THEN NotIso
             ELSE IF c.h > 23 \/ c.m > 59 \/ c.s > 59 THEN NotIso
             ELSE LET r == [date EXCEPT !.h = c.h, !.mi = c.m, !.s = c.s, !.us = c.us]
                  IN IF c.next > Len(t) THEN r
                     ELSE IF t[c.next] = LETTERZ /\ c.next = Len(t) THEN r
                     ELSE IF t[c.next] \in {PLUS, DASH}
                          THEN LET z == Clock(t, c.next + 1)
                               IN IF ~z.ok THEN NotIso
                                  ELSE IF z.next # Len(t) + 1 \/ z.us # 0 \/ z.h > 23 \/ z.m > 59 \/ z.s > 59 THEN NotIso
                                  ELSE [r EXCEPT !.off = (IF t[c.next] = DASH THEN -1 ELSE 1) * (z.h * 3600 + z.m * 60 + z.s)]
                          ELSE NotIso

\* instants
DayNorm(day, sec, us) == <<day + (sec \div 86400), sec % 86400, us>>
UtcOf(c) == DayNorm(DayNumber(c.y, DayOfYear(c.y, c.m, c.d)), c.h * 3600 + c.mi * 60 + c.s - c.off, c.us)
\* instant of record header fields; second 60 is the one after 59
OfFields(y, doy, h, mi, s, us) == DayNorm(DayNumber(y, doy), h * 3600 + mi * 60 + s, us)
FirstDay == 0
LastDay == DayNumber(9999, 365)
InRange(t) == t[1] >= FirstDay /\ t[1] <= LastDay
\* number of microseconds from a to b if they are close, else a big number
Apart(a, b) ==
  LET ds == (b[1] - a[1]) * 86400 + b[2] - a[2]
  IN IF b[1] - a[1] \notin -2..2 THEN 1000000000
     ELSE IF ds \notin -1000..1000 THEN 1000000000 ELSE ds * Million + b[3] - a[3]

\* k periods of num/den seconds, as <<s, us>> rounded down
RECURSIVE Decimals(_, _, _)
Decimals(r, den, k) == IF k = 0 THEN 0
                       ELSE ((r * 10) \div den) * 10 ^ (k - 1) + Decimals((r * 10) % den, den, k - 1)
Span(k, num, den) == << (k * num) \div den, Decimals((k * num) % den, den, 6) >>
AddSpan(t, sp) == LET u == t[3] + sp[2]
                      s == t[2] + (sp[1] % 86400) + (u \div Million)
                  IN <<t[1] + (sp[1] \div 86400) + (s \div 86400), s % 86400, u % Million>>
=============================================================================
