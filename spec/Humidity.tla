------------------------------ MODULE Humidity ------------------------------
(* Hourly relative humidity.  Temperatures are scaled by 10^4 (K), humidity  *)
(* by 10^4 (percent), regression slope by 10^4.                              *)
EXTENDS Trig, FiniteSets

ZERO == 2731500
HMAX == 1000000
\* exponent (10^6) of the saturation vapour pressure over water / over ice
WaterExp(t) == MulDiv(17620000, t - ZERO, 2431200 + (t - ZERO))
IceExp(t)   == MulDiv(22460000, t - ZERO, 2726200 + (t - ZERO))
SatExp(t) == IF t >= ZERO THEN WaterExp(t) ELSE IceExp(t)
\* the formulas are used for temperatures of a planet's surface only
Sane(t) == t > 1600000 /\ t < 3600000

Clip(h) == IF IsNA(h) THEN NA ELSE Max2(0, Min2(HMAX, h))
\* 100 * e_s(dew) / e_s(temp), unlimited; BIG when far above
FromDew(td, t) == IF IsNA(td) \/ IsNA(t) THEN NA
                  ELSE LET x == SatExp(td) - SatExp(t) IN Exp(x)

\* daily dew point from the daily minimum
DewDaily(a0, a1, tmin) == IF IsNA(tmin) THEN NA ELSE a0 + MulDiv(a1, tmin, 10000)
\* sine term of the varying dew point (10^4 K)
DewSine(h, kr) == MulDiv(SinU((((h + 1) * (TURN \div 2)) \div kr) - 3 * (TURN \div 8)), 5000, M6)
DewAt(dew, d, h, kr) ==   \* dew: daily dew points
  LET nx == IF d = Len(dew) THEN dew[d] ELSE dew[d + 1]
  IN IF IsNA(dew[d]) \/ IsNA(nx) THEN NA
     ELSE dew[d] + TDiv((nx - dew[d]) * h, 24) + DewSine(h, kr)

MinMaxHum(hmin, hmax, tmin, tmax, t) ==
  IF IsNA(hmin) \/ IsNA(hmax) \/ IsNA(tmin) \/ IsNA(tmax) \/ IsNA(t) THEN NA
  ELSE hmax + MulDiv(hmin - hmax, t - tmin, tmax - tmin)

\* mean of the present readings of a day, NA if there are none (offset keeps sums small)
Present(day) == {i \in 1..Len(day) : ~IsNA(day[i])}
RECURSIVE SumSet(_, _)
SumSet(day, S) == IF S = {} THEN 0 ELSE LET i == CHOOSE x \in S : TRUE IN day[i] + SumSet(day, S \ {i})
DayMean(day) == LET S == Present(day) IN IF S = {} THEN NA ELSE RDiv(SumSet(day, S), Cardinality(S))
\* one constant for the whole day; days without an observed mean stay as they are
Preserve(day, obs) ==
  LET m == DayMean(day)
      b == IF IsNA(m) \/ IsNA(obs) THEN 0 ELSE m - obs
  IN [i \in 1..Len(day) |-> IF IsNA(day[i]) THEN NA ELSE day[i] - b]

(* dew point of air with temperature t and humidity hum (10^4 percent):      *)
(* the branch of the formula is that of the air temperature                  *)
Vapour(t, hum) == MulDiv(Exp(SatExp(t)), hum, 1000000)         \* 10^6 * e / 6.112 hPa
BranchExp(t, x) == IF t >= ZERO THEN WaterExp(x) ELSE IceExp(x)
=============================================================================
