----------------------------- MODULE PipelineMC -----------------------------
(* Short days (H hours) spread and collected again, for every course of      *)
(* small weights and every pair of daily values.                             *)
EXTENDS Integers, Sequences, FiniteSets
CONSTANTS H, Weights, Vals
Unit == 180           \* makes all divisions exact
VARIABLES m, course, day, hourly, back, again, phase
vars == <<m, course, day, hourly, back, again, phase>>

RECURSIVE SumTo(_, _)
SumTo(s, n) == IF n = 0 THEN 0 ELSE SumTo(s, n - 1) + s[n]
Sum(s) == SumTo(s, H)
Lo(s) == CHOOSE x \in {s[i] : i \in 1..H} : \A i \in 1..H : x <= s[i]
Hi(s) == CHOOSE x \in {s[i] : i \in 1..H} : \A i \in 1..H : x >= s[i]
Methods == {"equal", "share", "span", "centred"}
\* daily values: mean, minimum, maximum
Spread(mm, c, x) ==
  CASE mm = "equal" -> [h \in 1..H |-> x.mean]
    [] mm = "share" -> [h \in 1..H |-> IF Sum(c) = 0 THEN 0 ELSE (x.mean * H * c[h]) \div Sum(c)]
    [] mm = "span"  -> [h \in 1..H |-> x.lo + ((x.hi - x.lo) * (c[h] - Lo(c))) \div (Hi(c) - Lo(c))]
    [] mm = "centred" -> [h \in 1..H |-> x.mean + ((x.hi - x.lo) * (H * c[h] - Sum(c))) \div (H * (Hi(c) - Lo(c)))]
Collect(s) == [mean |-> Sum(s) \div H, lo |-> Lo(s), hi |-> Hi(s)]
Usable(mm, c) == mm \in {"span", "centred"} => Hi(c) > Lo(c)
Days == [mean : {H * Unit * v : v \in Vals}, lo : {Unit * v : v \in Vals}, hi : {Unit * v : v \in Vals}]
None == <<>>
Init == /\ m \in Methods /\ course \in [1..H -> Weights] /\ Usable(m, course)
        /\ day \in {<<a, b>> : a \in Days, b \in Days} /\ \A i \in 1..2 : day[i].hi > day[i].lo
        /\ m \in {"equal", "share"} => \A i \in 1..2 : day[i].lo = 0 /\ day[i].hi = Unit
        /\ hourly = None /\ back = None /\ again = None /\ phase = 0
Disaggregate == /\ phase = 0 /\ phase' = 1
                /\ hourly' = [i \in 1..2 |-> Spread(m, course, day[i])] /\ UNCHANGED <<m, course, day, back, again>>
Aggregate == /\ phase = 1 /\ phase' = 2
             /\ back' = [i \in 1..2 |-> Collect(hourly[i])] /\ UNCHANGED <<m, course, day, hourly, again>>
Again == /\ phase = 2 /\ phase' = 3
         /\ again' = [i \in 1..2 |-> Spread(m, course, back[i])] /\ UNCHANGED <<m, course, day, hourly, back>>
\* the course estimated from the two days themselves: their average
Average == [h \in 1..H |-> hourly[1][h] + hourly[2][h]]
Calibrated == /\ phase = 3 /\ phase' = 4 /\ m # "equal" /\ Usable(m, Average) /\ (m = "share" => Sum(Average) > 0)
              /\ again' = [i \in 1..2 |-> Spread(m, Average, back[i])] /\ UNCHANGED <<m, course, day, hourly, back>>
Next == Disaggregate \/ Aggregate \/ Again \/ Calibrated
Dark == m = "share" /\ Sum(course) = 0
MeanKept == (phase >= 2 /\ m \in {"equal", "share", "centred"} /\ ~Dark) => \A i \in 1..2 : back[i].mean = day[i].mean
ExtremesKept == (phase >= 2 /\ m = "span") => \A i \in 1..2 : back[i].lo = day[i].lo /\ back[i].hi = day[i].hi
RangeKept == (phase >= 2 /\ m \in {"span", "centred"}) => \A i \in 1..2 : back[i].hi - back[i].lo = day[i].hi - day[i].lo
Settled == phase >= 3 => again = hourly
=============================================================================
