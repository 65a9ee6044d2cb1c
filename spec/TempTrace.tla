------------------------------ MODULE TempTrace -----------------------------
(* C07, C08, C09: recorded temperature disaggregations.                      *)
EXTENDS TraceKit, Temperature

Tol == 6
LocsOf(e, d) == Locs(e.mmt, e.sunrise[d], e.noon[d], IF Len(e.delta) = 12 THEN e.delta[e.month[d]] ELSE 0)

Normal(e, d, h, m, M) ==
  IF e.m = "sine_mean" THEN MeanRange(e.tmean, e.tmin, e.tmax, d, h, M)
  ELSE MinMax(e.tmin, e.tmax, d, h, m, M, e.night = 1)

\* the 24 recorded hours of a day equal the given course
DayIs(e, d, f(_)) == \A h \in 0..23 : Same(e.out[24 * (d - 1) + h + 1], f(h), Tol)

\* properties of a day that follow from the course but are stated separately
Facts(e, d, loc) ==
  LET m == loc[1]
      M == loc[2]
      v(h) == e.out[24 * (d - 1) + h + 1]
      ok == ~IsNA(e.tmin[d]) /\ ~IsNA(e.tmax[d]) /\ \A h \in 0..23 : IsVal(v(h))
  IN IF ~ok THEN {}
     ELSE IF e.m = "sine_mean" THEN
        Req("daily mean preserved", Near(Sum([h \in 1..24 |-> v(h - 1) - e.tmean[d]]), 0, 24 * Tol))
        \cup Req("daily range preserved", LET s == [h \in 1..24 |-> v(h - 1)] IN Near(SeqMax(s) - SeqMin(s), e.tmax[d] - e.tmin[d], 2 * Tol))
        \cup Req("warmest at the hour of the maximum", \A h \in 0..23 : e.tmax[d] > e.tmin[d] => v(h) <= v(M % 24) + Tol)
     ELSE Req("maximum at the hour of the maximum", (M \in 0..23 /\ m <= M) => Near(v(M), e.tmax[d], Tol))
        \cup Req("minimum at its hour", IF e.night = 1 THEN (m \in 0..23 /\ m < M) => Near(v(m), e.tmin[d], Tol)
                                       ELSE (M \in 12..23) => Near(v(M - 12), e.tmin[d], Tol))
        \cup Req("within the surrounding extremes",
               \* the extremes of the day, the minimum after and the maximum before it
               LET N == Len(e.tmin)
                   r == {e.tmin[d], e.tmax[d], IF d < N THEN e.tmin[d + 1] ELSE NA, IF d > 1 THEN e.tmax[d - 1] ELSE NA} \ {NA}
               IN \A h \in 0..23 : (\E x \in r : v(h) >= x - Tol) /\ (\E x \in r : v(h) <= x + Tol))

DayBad(e, d) ==
  IF e.m \in {"mean_course_min_max", "mean_course_mean"} THEN
     LET c == e.course[e.month[d]]
         f(h) == IF e.m = "mean_course_mean" THEN CourseMean(e.tmean, e.tmin, e.tmax, d, c, h)
                 ELSE CourseMinMax(e.tmin, e.tmax, d, c[h + 1])
         v == [h \in 1..24 |-> e.out[24 * (d - 1) + h]]
     IN IF ~DayIs(e, d, f) THEN {"hour follows the mean course"}
        ELSE IF ~AllVals(v) THEN {}
        ELSE IF e.m = "mean_course_mean"
        THEN Req("daily mean preserved", Near(Sum([h \in 1..24 |-> v[h] - e.tmean[d]]), 0, 24 * Tol))
             \cup Req("daily range preserved", Near(SeqMax(v) - SeqMin(v), Abs(e.tmax[d] - e.tmin[d]), 2 * Tol))
        ELSE Req("minimum and maximum are met", Near(SeqMin(v), e.tmin[d], Tol) /\ Near(SeqMax(v), e.tmax[d], Tol))
  ELSE LET good == {loc \in LocsOf(e, d) : DayIs(e, d, LAMBDA h : Normal(e, d, h, loc[1], loc[2]))}
       IN IF good = {} THEN {"hour follows the cosine course"}
          ELSE Facts(e, d, CHOOSE x \in good : TRUE)

(* Polar spells: the readings of the spell and its neighbours are            *)
(* interpolated; all other days follow the normal course.                    *)
PolarBad(e) ==
  LET N == Len(e.tmin)
      pol == TLCEval([d \in 1..N |-> PolarDay(e.dlen[d])])
      \* a rounding edge of sunrise or noon leaves two readings: days next to it are not judged
      edge == TLCEval([d \in 1..N |-> Cardinality(LocsOf(e, d)) > 1])
      near(d) == \E x \in (d - 1)..(d + 1) : x \in 1..N /\ edge[x]
      loc == TLCEval([d \in 1..N |-> CHOOSE x \in LocsOf(e, d) : TRUE])
      base == TLCEval([k \in 1..(24 * N) |-> LET d == ((k - 1) \div 24) + 1 IN Normal(e, d, (k - 1) % 24, loc[d][1], loc[d][2])])
      want == TLCEval(PolarCourse(base, pol, loc, e.tmin, e.tmax))
  IN UNION {LET d == ((k - 1) \div 24) + 1 IN
        IF Same(e.out[k], want[k], Tol) \/ near(d) THEN {}
        ELSE IF pol[d] THEN {"polar day follows the trend"}
        ELSE IF InSpell(pol, d) THEN {"days next to a polar spell join the normal course"}
        ELSE {"other days keep the normal course"}
        : k \in 1..(24 * N)}

Judge(e) ==
  IF e.exc # "" THEN {"call failed"}
  ELSE IF Len(e.out) # 24 * Len(e.tmin) THEN {"number of hours"}
  ELSE IF \E k \in 1..Len(e.out) : ~ValOrNA(e.out[k]) THEN {"finite temperatures"}
  ELSE IF e.op = "polar" THEN PolarBad(e)
  ELSE UNION {DayBad(e, d) : d \in 1..Len(e.tmin)}

Init == Start(0)
Next == More /\ Consume(0, IF Cur.op = "crash" THEN {} ELSE Judge(Cur))
=============================================================================
