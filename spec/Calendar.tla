------------------------------- MODULE Calendar -------------------------------
(***************************************************************************)
(* Civil time: minutes since 1970-01-01T00:00 (UTC) and the zones' offset     *)
(* rules, from which every calendar feature of a row follows.                *)
(***************************************************************************)
EXTENDS Integers, Sequences, TLC

\* day number of a civil date (Hinnant's algorithm), 0 = 1970-01-01
DayNumber(y0, m, d) ==
    LET y == IF m <= 2 THEN y0 - 1 ELSE y0
        era == y \div 400
        yoe == y - era * 400
        mp == (m + 9) % 12
        doy == (153 * mp + 2) \div 5 + d - 1
        doe == yoe * 365 + yoe \div 4 - yoe \div 100 + doy
    IN  era * 146097 + doe - 719468
Year(day) ==
    LET z == day + 719468
        era == z \div 146097
        doe == z - era * 146097
        yoe == (doe - doe \div 1460 + doe \div 36524 - doe \div 146096) \div 365
        doy == doe - (365 * yoe + yoe \div 4 - yoe \div 100)
        mp == (5 * doy + 2) \div 153
    IN  yoe + era * 400 + (IF mp >= 10 THEN 1 ELSE 0)
\* 0 = Monday
DayOfWeek(day) == (day + 3) % 7
\* the n-th Sunday on or after day, the last Sunday on or before day
SundayFrom(day, n) == day + ((6 - DayOfWeek(day)) % 7) + 7 * (n - 1)
SundayUpTo(day) == day - ((DayOfWeek(day) - 6) % 7)

\* UTC offset in minutes of an instant (minutes since the epoch)
Offset(zone, e) ==
    LET y == Year(e \div 1440) IN
    CASE zone = "Europe/Zurich" -> IF e >= SundayUpTo(DayNumber(y, 3, 31)) * 1440 + 60 /\ e < SundayUpTo(DayNumber(y, 10, 31)) * 1440 + 60 THEN 120 ELSE 60
      [] zone = "America/New_York" -> IF e >= SundayFrom(DayNumber(y, 3, 1), 2) * 1440 + 420 /\ e < SundayFrom(DayNumber(y, 11, 1), 1) * 1440 + 360 THEN -240 ELSE -300
      [] zone = "Asia/Kolkata" -> 330
      [] OTHER -> 0

Local(zone, e) == e + Offset(zone, e)
Hour(m) == (m \div 60) % 24
MinuteOfDay(m) == m % 1440
Dow(m) == DayOfWeek(m \div 1440)

\* public holidays are given (day numbers); bridges and long weekends follow from them and the weekends
NonWorking(day, hols) == DayOfWeek(day) >= 5 \/ day \in hols
Bridge(day, hols) == ~NonWorking(day, hols) /\ NonWorking(day - 1, hols) /\ NonWorking(day + 1, hols)
Vacation(day, hols) == NonWorking(day, hols) \/ Bridge(day, hols)
LongWeekend(day, hols) == \E a \in 0..2 : \A k \in 0..2 : Vacation(day - a + k, hols)
HolidayClass(day, hols) == IF day \in hols THEN 3 ELSE IF LongWeekend(day, hols) THEN 2 ELSE IF Bridge(day, hols) THEN 1 ELSE 0
=============================================================================
