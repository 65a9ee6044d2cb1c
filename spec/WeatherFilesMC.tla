--------------------------- MODULE WeatherFilesMC ---------------------------
(* A clock running through all hours of chosen days next to the record's     *)
(* date and hour: successive records are one hour apart, and no two records  *)
(* share a time.                                                             *)
EXTENDS WeatherFiles, TLC
CONSTANTS Years, Months, Dom
VARIABLES date, hh, left
vars == <<date, hh, left>>
Init == \E y \in Years, m \in Months, d \in Dom : IsDate(<<y, m, d>>) /\ date = <<y, m, d>> /\ hh = 1 /\ left = 48
Next == left > 0 /\ left' = left - 1 /\ IF hh < 24 THEN hh' = hh + 1 /\ date' = date ELSE hh' = 1 /\ date' = NextDay(date)
T == KnmiTime(date, hh)
Valid == IsDate(<<T[1], T[2], T[3]>>) /\ T[4] \in 0..23
\* the next record is exactly one hour later
OneHour == LET a == T
               b == T'
           IN IF a[4] < 23 THEN b = <<a[1], a[2], a[3], a[4] + 1>> ELSE b = NextDay(<<a[1], a[2], a[3]>>) \o <<0>>
Steps == [][OneHour]_vars
=============================================================================
