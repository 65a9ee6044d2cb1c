------------------------------ MODULE Calendar -----------------------------
(* The calendar and the hourly frame of a daily index.  A date is            *)
(* <<year, month, day>>.                                                     *)
EXTENDS Integers, Sequences, FiniteSets

Leap(y) == (y % 4 = 0 /\ y % 100 # 0) \/ y % 400 = 0
DaysIn(y, m) == CASE m \in {1, 3, 5, 7, 8, 10, 12} -> 31
                  [] m \in {4, 6, 9, 11} -> 30
                  [] m = 2 -> IF Leap(y) THEN 29 ELSE 28
NextDay(d) == IF d[3] < DaysIn(d[1], d[2]) THEN <<d[1], d[2], d[3] + 1>>
              ELSE IF d[2] < 12 THEN <<d[1], d[2] + 1, 1>> ELSE <<d[1] + 1, 1, 1>>
Before(a, b) == a[1] < b[1] \/ (a[1] = b[1] /\ (a[2] < b[2] \/ (a[2] = b[2] /\ a[3] < b[3])))
IsDate(d) == d[2] \in 1..12 /\ d[3] \in 1..DaysIn(d[1], d[2])
RECURSIVE DayOfYear(_)
DayOfYear(d) == IF d[2] = 1 THEN d[3] ELSE DayOfYear(<<d[1], d[2] - 1, DaysIn(d[1], d[2] - 1)>>) + d[3]

(* The hours of a sequence of days as maximal runs of consecutive hours:     *)
(* a run is <<first day, number of hours>>, starting at hour 0.              *)
RECURSIVE Runs(_, _, _, _)
Runs(days, i, first, n) ==      \* the run starting at `first` holds n days, days[i] comes next
  IF i > Len(days) THEN << <<first, 24 * n>> >>
  ELSE IF NextDay(days[i - 1]) = days[i] THEN Runs(days, i + 1, first, n + 1)
  ELSE << <<first, 24 * n>> >> \o Runs(days, i + 1, days[i], 1)
ListedHours(days) == Runs(days, 2, days[1], 1)
RECURSIVE DaySpan(_, _)
DaySpan(a, b) == IF a = b THEN 1 ELSE 1 + DaySpan(NextDay(a), b)
\* all hours from the first to the last day
FrameHours(days) == << <<days[1], 24 * DaySpan(days[1], days[Len(days)])>> >>
\* all days from the first to the last
RECURSIVE AllDays(_, _)
AllDays(a, b) == IF a = b THEN <<a>> ELSE <<a>> \o AllDays(NextDay(a), b)
\* the second of the day at which step k = 0, 1, ... of 2^level steps begins
SubStepSecond(k, level) == (k * 86400) \div (2 ^ level)
=============================================================================
