----------------------------- MODULE HumidityMC -----------------------------
(* Design check: air temperature and dew point walk over a grid; a day of    *)
(* three readings is corrected to an observed mean.                          *)
EXTENDS Humidity
CONSTANTS Lo, Hi, StepK, Readings, Means
VARIABLES t, td, day, obs
vars == <<t, td, day, obs>>
Init == t = Lo /\ td = Lo /\ day \in [1..3 -> Readings \cup {NA}] /\ obs \in Means \cup {NA}
Warm == t + StepK <= Hi /\ t' = t + StepK /\ td' = Lo /\ UNCHANGED <<day, obs>>
Wet  == td + StepK <= t /\ td' = td + StepK /\ UNCHANGED <<t, day, obs>>
Next == Warm \/ Wet
R == FromDew(td, t)
InRange == Clip(R) \in 0..HMAX
Saturated == td = t => R = HMAX
BelowSat == td <= t => R <= HMAX + 5
Monotone == [][t' = t => FromDew(td', t') >= FromDew(td, t)]_vars
MeanKept == LET p == Preserve(day, obs) IN
   (~IsNA(obs) /\ Present(day) # {}) => Near(DayMean(p), obs, 1)
SameShape == LET p == Preserve(day, obs) IN
   \A i \in 1..3 : (IsNA(p[i]) <=> IsNA(day[i])) /\ \A j \in 1..3 : (~IsNA(day[i]) /\ ~IsNA(day[j])) => p[i] - p[j] = day[i] - day[j]
Untouched == IsNA(obs) => Preserve(day, obs) = day
=============================================================================
