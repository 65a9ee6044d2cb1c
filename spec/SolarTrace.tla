------------------------------ MODULE SolarTrace ----------------------------
(* C15, C16: recorded sun times and potential radiation.                     *)
EXTENDS TraceKit, Solar

SunBad(e, i) ==
  LET noon == Noon(e.doy[i], e.lon, e.tz)
      dl == e.dlen[i]
  IN IF ~IsVal(e.noon[i]) \/ ~IsVal(dl) \/ ~IsVal(e.rise[i]) \/ ~IsVal(e.set[i]) THEN {"a sun time is missing"}
     ELSE Req("solar noon", Near(e.noon[i], noon, 3))
          \cup Req("day length", DayLengthOK(e.lat, e.doy[i], dl))
          \cup Req("sunrise half a day length before noon", SameTime(e.rise[i], Rise(e.noon[i], dl), 3))
          \cup Req("sunset half a day length after noon", SameTime(e.set[i], Set(e.noon[i], dl), 3))
          \cup Req("times lie within the day", e.rise[i] \in -3..240003 /\ e.set[i] \in -3..240003)
Sun(e) == IF e.exc # "" THEN {"call failed"} ELSE UNION {SunBad(e, i) : i \in 1..Len(e.doy)}

\* total error of a flat surface value is far below 0.05 W/m2; a slope adds that of a square root
PotBad(e, i) ==
  LET ha == HourAngle(e.minute[i], e.lon, e.tz)
      c == TLCEval(CosZ(e.doy[i], ha, e.lat))
      ci == CosI(e.doy[i], ha, c, e.slope, e.az)
      dir == Direct(e.doy[i], c, ci, e.cloud)
      dif == Diffuse(e.doy[i], c, e.cloud)
      tol == IF e.slope = 0 THEN 40 ELSE 2500
      near == c < 20       \* sun within a thousandth of a degree of the horizon
  IN IF \E x \in {e.total[i], e.direct[i], e.diffuse[i]} : ~IsVal(x) THEN {"radiation is finite"}
     ELSE Req("radiation is not negative", e.total[i] >= 0 /\ e.direct[i] >= 0 /\ e.diffuse[i] >= 0)
          \cup Req("direct and diffuse add up", Near(e.total[i], e.direct[i] + e.diffuse[i], 2))
          \cup Req("dark below the horizon", (c = 0 /\ CosZ(e.doy[i], ha + 20, e.lat) = 0 /\ CosZ(e.doy[i], ha - 20, e.lat) = 0) => e.total[i] <= 1)
          \cup (IF near THEN {} ELSE
                Req("direct radiation", Near(e.direct[i], dir, tol))
                \cup Req("diffuse radiation", Near(e.diffuse[i], dif, 40)))
Pot(e) == IF e.exc # "" THEN {"call failed"}
          ELSE IF Len(e.total) # Len(e.doy) \/ Len(e.direct) # Len(e.doy) THEN {"one value per time"}
          ELSE UNION {PotBad(e, i) : i \in 1..Len(e.doy)}
\* two sites with the same solar time see the same sun
Pair(e) == IF e.exc # "" THEN {"call failed"}
           ELSE Req("same solar time, same radiation", Len(e.x) = Len(e.y) /\ \A i \in 1..Len(e.x) : Near(e.x[i], e.y[i], 2))

Judge(e) == CASE e.op = "sun" -> Sun(e) [] e.op = "pot" -> Pot(e) [] e.op = "pair" -> Pair(e) [] OTHER -> {"unknown event"}
Init == Start(0)
Next == More /\ Consume(0, IF Cur.op = "crash" THEN {} ELSE Judge(Cur))
=============================================================================
