------------------------------- MODULE Diurnal ------------------------------
(* Statistics of hourly observations.  Observations are given on a grid of   *)
(* days and hours, v[24*(d-1)+h+1]; what is not observed is NA.              *)
EXTENDS Solar, Humidity, TLC

At(v, d, h) == v[24 * (d - 1) + h + 1]
DaysOf(month, m) == SelectSeq([d \in 1..Len(month) |-> d], LAMBDA d : month[d] = m)
RECURSIVE CellSum(_, _, _, _), CellCount(_, _, _, _)
CellSum(v, days, h, i) == IF i = 0 THEN 0 ELSE CellSum(v, days, h, i - 1) + (LET x == At(v, days[i], h) IN IF IsNA(x) THEN 0 ELSE x)
CellCount(v, days, h, i) == IF i = 0 THEN 0 ELSE CellCount(v, days, h, i - 1) + (IF IsNA(At(v, days[i], h)) THEN 0 ELSE 1)
\* average of the available readings at hour h of the given days
CellMean(v, days, h) == LET n == CellCount(v, days, h, Len(days)) IN IF n = 0 THEN NA ELSE RDiv(CellSum(v, days, h, Len(days)), n)
MonthCourse(v, month, m) == LET days == TLCEval(DaysOf(month, m)) IN [h \in 0..23 |-> CellMean(v, days, h)]
\* a course scaled to 0..10^6; NA when it is empty or flat
ScaledCourse(c) ==
  LET K == {c[h] : h \in {x \in DOMAIN c : ~IsNA(c[x])}}
      lo == CHOOSE x \in K : \A y \in K : x <= y
      hi == CHOOSE x \in K : \A y \in K : x >= y
  IN [h \in DOMAIN c |-> IF IsNA(c[h]) \/ lo = hi THEN NA ELSE MulDiv(c[h] - lo, M6, hi - lo)]
Spread(c) == LET K == {c[h] : h \in {x \in DOMAIN c : ~IsNA(c[x])}}
             IN IF K = {} THEN 0 ELSE (CHOOSE x \in K : \A y \in K : x >= y) - (CHOOSE x \in K : \A y \in K : x <= y)

(* Shift of the temperature maximum from solar noon.                         *)
HoursOfMax(v, d) == LET K == {h \in 0..23 : ~IsNA(At(v, d, h))}
                    IN {h \in K : \A x \in K : At(v, d, h) >= At(v, d, x)}
RECURSIVE ShiftSum(_, _, _, _)
ShiftSum(hours, noon, days, i) == IF i = 0 THEN 0 ELSE ShiftSum(hours, noon, days, i - 1) + 10000 * hours[days[i]] - noon[days[i]]

(* Wet and dry days.                                                         *)
RECURSIVE DaySum(_, _, _)
DaySum(v, d, h) == IF h < 0 THEN 0 ELSE DaySum(v, d, h - 1) + (IF IsNA(At(v, d, h)) THEN 0 ELSE At(v, d, h))
Wet(precip, d) == DaySum(precip, d, 23) > 0

(* Dew point (10^-4 K) of air at t (10^-4 K) with humidity hum (10^-4 %).    *)
DewOf(t, hum) ==
  LET L == RDiv(SatExp(t) + Ln(hum), 10)
  IN IF t >= ZERO THEN ZERO + MulDiv(2431200, L, 1762000 - L) ELSE ZERO + MulDiv(2726200, L, 2246000 - L)
DayOf(v, d) == [h \in 1..24 |-> At(v, d, h - 1)]
DewDay(t, hum, d) == DayMean([h \in 1..24 |-> IF IsNA(At(t, d, h - 1)) \/ IsNA(At(hum, d, h - 1)) THEN NA ELSE DewOf(At(t, d, h - 1), At(hum, d, h - 1))])
MinDay(t, d) == LET K == {At(t, d, h) : h \in {x \in 0..23 : ~IsNA(At(t, d, x))}}
                IN IF K = {} THEN NA ELSE CHOOSE x \in K : \A y \in K : x <= y
RECURSIVE Dot(_, _, _)
Dot(r, x, i) == IF i = 0 THEN 0 ELSE Dot(r, x, i - 1) + MulDiv(r[i], x[i], 10000)
=============================================================================
