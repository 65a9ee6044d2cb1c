----------------------------- MODULE CalendarMC ----------------------------
(* Builds every daily index of at most MaxLen calendar days from the start   *)
(* dates: each further day is either listed or left out.  The reachable      *)
(* states whose current day is listed are replayed into the real code.       *)
EXTENDS Calendar
CONSTANTS MaxLen
Starts == {<<2015, 12, 30>>, <<2016, 2, 27>>, <<2015, 2, 27>>, <<1900, 2, 27>>, <<2000, 2, 28>>, <<2014, 6, 29>>, <<2019, 10, 26>>}
VARIABLES cur, listed, n
vars == <<cur, listed, n>>
Init == cur \in Starts /\ listed = <<cur>> /\ n = 1
List == n < MaxLen /\ cur' = NextDay(cur) /\ listed' = Append(listed, NextDay(cur)) /\ n' = n + 1
Skip == n < MaxLen /\ cur' = NextDay(cur) /\ listed' = listed /\ n' = n + 1
Next == List \/ Skip
RECURSIVE HourSum(_)
HourSum(r) == IF r = <<>> THEN 0 ELSE Head(r)[2] + HourSum(Tail(r))
DatesValid == IsDate(cur) /\ \A i \in 1..Len(listed) : IsDate(listed[i])
Increasing == \A i \in 1..(Len(listed) - 1) : Before(listed[i], listed[i + 1])
HoursComplete == HourSum(ListedHours(listed)) = 24 * Len(listed)
RunsMaximal == LET r == ListedHours(listed) IN \A i \in 1..Len(r) : r[i][2] % 24 = 0 /\ r[i][2] > 0
FrameCovers == FrameHours(listed)[1][2] >= 24 * Len(listed)
               /\ (Len(ListedHours(listed)) = 1 <=> FrameHours(listed) = ListedHours(listed))
DoyAdvances == \A i \in 1..(Len(listed) - 1) : (NextDay(listed[i]) = listed[i + 1] /\ listed[i][1] = listed[i + 1][1])
                  => DayOfYear(listed[i + 1]) = DayOfYear(listed[i]) + 1
=============================================================================
