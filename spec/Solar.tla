-------------------------------- MODULE Solar -------------------------------
(* Position of the sun, sun times and potential radiation.  Latitude and     *)
(* longitude in 10^-4 degrees (exactly 40 angle units per 10^-2 degree),     *)
(* times in 10^-4 h, radiation in mW/m2.                                     *)
EXTENDS Trig

U4(x) == RDiv(2 * x, 5)                    \* 10^-4 degrees -> angle units

(* ----------------------------- sun times --------------------------------- *)
\* declination in angle units after Bourges (1985)
AngleB(doy) == MulDiv(1000 * doy - 79346, 1440000, 365250)
DeclB(doy) == LET b == AngleB(doy) IN
  RDiv(372300 + MulDiv(23256700, SinU(b), M6) - MulDiv(758000, CosU(b), M6)
       + MulDiv(114900, SinU(2 * b), M6) + MulDiv(365600, CosU(2 * b), M6)
       - MulDiv(171200, SinU(3 * b), M6) + MulDiv(20100, CosU(3 * b), M6), 250)
\* equation of time (10^-6 h) after Spencer (1971)
EqTime(doy) == LET s == (((doy - 1) * 288000) \div 73) IN
  MulDiv(75 + MulDiv(1868, CosU(s), M6) - MulDiv(32077, SinU(s), M6)
         - MulDiv(14615, CosU(2 * s), M6) - MulDiv(40849, SinU(2 * s), M6), 3819719, M6)
\* local clock time of solar noon: 4 minutes per degree from the time zone meridian
\* tz: the clock's lead over universal time in quarter hours
Noon(doy, lon, tz) == 120000 - RDiv(lon - tz * 37500, 15) - RDiv(EqTime(doy), 100)
\* the sunrise equation: what must vanish at half the day length (10^6)
SunEq(lat, doy, dlen) ==
  LET f == U4(lat) d == DeclB(doy) IN
  MulDiv(MulDiv(CosU(RDiv(dlen * 3, 1)), CosU(f), M6), CosU(d), M6) + MulDiv(SinU(f), SinU(d), M6)
\* altitude margin of the sun: above 0 it stays up all day / below it never rises
AllDay(lat, doy)   == MulDiv(SinU(U4(lat)), SinU(DeclB(doy)), M6) - MulDiv(CosU(U4(lat)), CosU(DeclB(doy)), M6)
AllNight(lat, doy) == -MulDiv(SinU(U4(lat)), SinU(DeclB(doy)), M6) - MulDiv(CosU(U4(lat)), CosU(DeclB(doy)), M6)
EDGE == 12
DayLengthOK(lat, doy, dlen) ==
  \/ AllDay(lat, doy) > -EDGE /\ dlen = 240000
  \/ AllNight(lat, doy) > -EDGE /\ dlen = 0
  \/ /\ AllDay(lat, doy) < EDGE /\ AllNight(lat, doy) < EDGE
     /\ dlen \in 0..240000
     /\ Abs(SunEq(lat, doy, dlen)) <= EDGE
Rise(noon, dlen) == LET x == noon - dlen \div 2 IN IF x < 0 THEN x + 240000 ELSE x
Set(noon, dlen)  == LET x == noon + dlen \div 2 IN IF x > 240000 THEN x - 240000 ELSE x
\* equal times of day, 0 h and 24 h being the same
SameTime(a, b, tol) == Near(a, b, tol) \/ Near(a + 240000, b, tol) \/ Near(a, b + 240000, tol)

(* ------------------------- potential radiation --------------------------- *)
Decl(doy) == RDiv(MulDiv(9374788, CosU(MulDiv(doy - 173, 144000000, 36525)), M6), 100)
\* hour angle in angle units; minute of the day, longitude, time zone
HourAngle(minute, lon, tz) == 1000 * minute + U4(lon - tz * 37500) - (TURN \div 2)
CosZ(doy, ha, lat) ==
  LET d == Decl(doy) f == U4(lat)
      c == MulDiv(SinU(d), SinU(f), M6) + MulDiv(MulDiv(CosU(d), CosU(f), M6), CosU(ha), M6)
  IN Max2(0, Min2(M6, c))
\* eccentricity correction (10^6)
Ratio(doy) == LET b == MulDiv(doy, 144000000, 36525) IN
  1000110 + MulDiv(34221, CosU(b), M6) + MulDiv(1280, SinU(b), M6) + MulDiv(719, CosU(2 * b), M6) + MulDiv(77, SinU(2 * b), M6)
Extra(doy) == MulDiv(1367000, Ratio(doy), M6)                    \* mW/m2
\* transmissivities (10^6), cloud fraction scaled by 10^6
TrDirect(c, cloud)  == MulDiv(600000 + c \div 5, M6 - cloud, M6)
TrDiffuse(c, cloud) == MulDiv(300000 + c \div 10, cloud, M6)
Direct(doy, c, cosi, cloud) == IF c = 0 \/ cosi <= 0 THEN 0 ELSE MulDiv(MulDiv(Extra(doy), TrDirect(c, cloud), M6), cosi, M6)
Diffuse(doy, c, cloud) == MulDiv(MulDiv(Extra(doy), TrDiffuse(c, cloud), M6), c, M6)
\* cosine of the incidence angle on a slope (slope and azimuth in angle units)
CosI(doy, ha, c, slope, az) ==
  IF slope = 0 THEN c
  ELSE LET sz2 == M6 - MulDiv(c, c, M6)
           sz == Sqrt6(sz2)
           w0 == MulDiv(CosU(Decl(doy)), SinU(ha), M6)
           w == Max2(-sz, Min2(sz, w0))
           v == Sqrt6(Max2(0, sz2 - MulDiv(w, w, M6)))
       IN MulDiv(CosU(slope), c, M6) + MulDiv(SinU(slope), MulDiv(v, CosU(az), M6) + MulDiv(w, SinU(az), M6), M6)
=============================================================================
