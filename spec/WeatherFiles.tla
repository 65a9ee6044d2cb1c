---------------------------- MODULE WeatherFiles ----------------------------
(* Records of weather service files: their time and their units.             *)
EXTENDS Fix, Calendar

(* KNMI: hour 1..24 is the end of the hour, hour 24 is midnight of the next  *)
(* day.  A time is <<y, m, d, h>>.                                           *)
KnmiTime(date, hh) == IF hh = 24 THEN NextDay(date) \o <<0>> ELSE date \o <<hh>>
\* raw integers to hourly values scaled by 10^4; -1 stands for less than half a unit
NonNeg(x) == IF x < 0 THEN 0 ELSE x
KnmiVars == <<"temp", "precip", "glob", "hum", "wind", "ssd">>
Knmi(var, x) ==
  IF IsNA(x) THEN NA
  ELSE CASE var = "temp" -> 1000 * x + 2731500            \* 0.1 deg C to K
         [] var = "precip" -> 1000 * NonNeg(x)            \* 0.1 mm
         [] var = "glob" -> RDiv(250000 * x, 9)           \* J/cm2 per hour to W/m2
         [] var = "hum" -> 10000 * x
         [] var = "wind" -> 1000 * x                      \* 0.1 m/s
         [] var = "ssd" -> 60000 * NonNeg(x)              \* 0.1 h to minutes
LaterEq(a, b) == \* time a not before time b
  Before(<<b[1], b[2], b[3]>>, <<a[1], a[2], a[3]>>) \/ (<<a[1], a[2], a[3]>> = <<b[1], b[2], b[3]>> /\ a[4] >= b[4])

(* DWD: columns by their German names, degrees Celsius to Kelvin, -999 missing *)
DwdName == [LUFTTEMPERATUR |-> "tmean", LUFTTEMPERATUR_MINIMUM |-> "tmin", LUFTTEMPERATUR_MAXIMUM |-> "tmax",
            NIEDERSCHLAGSHOEHE |-> "precip", GLOBAL_KW_J |-> "glob", REL_FEUCHTE |-> "hum",
            WINDGESCHWINDIGKEIT |-> "wind", SONNENSCHEINDAUER |-> "sun_h"]
DWDMISS == -9990000
Dwd(name, x) == IF x = DWDMISS \/ IsNA(x) THEN NA ELSE IF name \in {"tmean", "tmin", "tmax"} THEN x + 2731500 ELSE x
=============================================================================
