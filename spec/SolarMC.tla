------------------------------- MODULE SolarMC ------------------------------
(* Design check of the solar geometry: the clock runs through the hours, the *)
(* calendar through the days of a leap year, for a set of latitudes.         *)
EXTENDS Solar
CONSTANT DayStep
Lats == {-900000, -665000, -450000, -100000, 0, 234300, 510000, 670000, 800000, 900000}
VARIABLES lat, doy, minute
vars == <<lat, doy, minute>>
Init == lat \in Lats /\ doy = 1 /\ minute = 0
Clock == minute < 1440 /\ minute' = minute + 60 /\ UNCHANGED <<lat, doy>>
Day == minute = 1440 /\ doy + DayStep <= 366 /\ doy' = doy + DayStep /\ minute' = 0 /\ UNCHANGED lat
Next == Clock \/ Day
Ha == HourAngle(minute, 0, 0)
C == CosZ(doy, Ha, lat)
P(cloud) == Direct(doy, C, C, cloud) + Diffuse(doy, C, cloud)
Positive == P(0) >= 0 /\ P(500000) >= 0 /\ P(M6) >= 0
Clouds == P(M6) <= P(500000) + 2 /\ P(500000) <= P(0) + 2
BelowSolarConstant == P(0) <= 1420000
Night == C = 0 => P(0) = 0 /\ Direct(doy, C, CosI(doy, Ha, C, 100000, 0), 0) = 0
Symmetric == Near(C, CosZ(doy, HourAngle(1440 - minute, 0, 0), lat), 4)
SolarTime == Near(C, CosZ(doy, HourAngle(minute, 75000 + 150000, 4) - U4(75000), lat), 4)
Declination == Abs(DeclB(doy)) <= 94000 /\ Abs(Decl(doy)) <= 93748 /\ Near(DeclB(doy), Decl(doy), 6000)
EqOfTime == Abs(EqTime(doy)) <= 290000
OneCase == ~(AllDay(lat, doy) > 0 /\ AllNight(lat, doy) > 0)
\* more than 12 h of day in one hemisphere is less than 12 h in the other
Hemispheres == AllDay(lat, doy) = AllNight(-lat, doy)
\* some day length always solves the sunrise equation or a polar case applies
Solvable == minute = 0 => AllDay(lat, doy) >= 0 \/ AllNight(lat, doy) >= 0
            \/ (SunEq(lat, doy, 0) >= -EDGE /\ SunEq(lat, doy, 240000) <= EDGE)
=============================================================================
