------------------------------ MODULE Pipeline ------------------------------
(* Disaggregation and aggregation against each other.                        *)
(*                                                                           *)
(* A method spreads daily values over the hours; aggregating the hours again *)
(* must give back the daily values the method promises to keep (C25).  If in *)
(* turn hourly observations already follow a method's model, calibrating the *)
(* model with them, aggregating them and disaggregating again must give the  *)
(* observations back (C26).                                                  *)
EXTENDS Aggregate, Trig

(* ------------------------- what each method keeps ------------------------ *)
Inputs == [sine_mean |-> {"temp", "tmin", "tmax"}, mean_course_mean |-> {"temp", "tmin", "tmax"},
           mean_course_min_max |-> {"tmin", "tmax"}, sine_min_max |-> {"tmin", "tmax"},
           hum_equal |-> {"hum"}, hum_kept |-> {"hum", "tmin"}, wind_equal |-> {"wind"}, wind_cosine |-> {"wind"},
           pot_rad |-> {"glob"}, rad_mean_course |-> {"glob"},
           precip_equal |-> {"precip"}, precip_cascade |-> {"precip"}, precip_master |-> {"precip"}]
\* daily columns given back unchanged, and whether the difference of maximum and minimum is
Keeps == [sine_mean |-> {"temp"}, mean_course_mean |-> {"temp"}, mean_course_min_max |-> {"tmin", "tmax"}, sine_min_max |-> {},
          hum_equal |-> {"hum"}, hum_kept |-> {"hum"}, wind_equal |-> {"wind"}, wind_cosine |-> {},
          pot_rad |-> {"glob"}, rad_mean_course |-> {"glob"},
          precip_equal |-> {"precip"}, precip_cascade |-> {"precip"}, precip_master |-> {"precip"}]
KeepsRange(m) == m \in {"sine_mean", "mean_course_mean", "mean_course_min_max"}
\* methods whose result is not changed by another round of aggregation and disaggregation
Settles(m) == m \in {"sine_mean", "mean_course_mean", "mean_course_min_max", "hum_equal", "wind_equal", "pot_rad", "rad_mean_course",
                     "precip_equal", "precip_cascade", "precip_master"}
\* daily columns made from an hourly column
Made == [temp |-> {<<"temp", "mean">>, <<"tmin", "min">>, <<"tmax", "max">>},
         hum |-> {<<"hum", "mean">>, <<"hum_min", "min">>, <<"hum_max", "max">>},
         wind |-> {<<"wind", "mean">>}, glob |-> {<<"glob", "mean">>}, precip |-> {<<"precip", "sum">>}]
DailyValue(how, v, a, b) == CASE how = "mean" -> MeanOf(v, a, b)
                              [] how = "min" -> MinOf(v, a, b)
                              [] how = "max" -> MaxOf(v, a, b)
                              [] how = "sum" -> Total(v, a, b)

(* --------------- observations that follow a model ------------------------ *)
First(d) == 24 * (d - 1) + 1
Final(d) == 24 * d
Hour(v, d, h) == v[24 * (d - 1) + h + 1]
\* position of a value between the day's extremes, and its ratio to the day's mean (10^5)
Place(v, lo, hi) == MulDiv(v - lo, 100000, hi - lo)
Ratio(v, mean) == IF mean = 0 THEN 0 ELSE MulDiv(v, 100000, mean)
\* the days of a month have one course
OneCourse(v, month, tol) ==
  LET N == Len(month)
      lo == [d \in 1..N |-> MinOf(v, First(d), Final(d))]
      hi == [d \in 1..N |-> MaxOf(v, First(d), Final(d))]
      first == [d \in 1..N |-> CHOOSE x \in 1..d : month[x] = month[d] /\ \A y \in 1..(x - 1) : month[y] # month[d]]
  IN \A d \in 1..N : hi[d] > lo[d] /\ \A h \in 0..23 :
       Near(Place(Hour(v, d, h), lo[d], hi[d]), Place(Hour(v, first[d], h), lo[first[d]], hi[first[d]]), tol)
\* the days of a month share the ratios to their means
OneProfile(v, month, tol) ==
  LET N == Len(month)
      mean == [d \in 1..N |-> MeanOf(v, First(d), Final(d))]
      first == [d \in 1..N |-> CHOOSE x \in 1..d : month[x] = month[d] /\ mean[x] # 0
                                 /\ \A y \in 1..(x - 1) : month[y] # month[d] \/ mean[y] = 0]
  IN \A d \in 1..N : mean[d] # 0 => \A h \in 0..23 :
       Near(Ratio(Hour(v, d, h), mean[d]), Ratio(Hour(v, first[d], h), mean[first[d]]), tol)
\* the ratios to the mean are a cosine of the hour
CosineProfile(v, N, tol) ==
  \A d \in 1..N : LET m == MeanOf(v, First(d), Final(d))
                      r(h) == Ratio(Hour(v, d, h), m)
                      A == (r(0) - r(12)) \div 2
                      B == (r(6) - r(18)) \div 2
                  IN m # 0 => \A h \in 0..23 : Near(r(h), 100000 + MulDiv(A, CosU(HOUR * h), M6) + MulDiv(B, SinU(HOUR * h), M6), tol)
\* the temperature is a cosine with its maximum at hour top
CosineDay(v, N, top, tol) ==
  \A d \in 1..N : LET lo == MinOf(v, First(d), Final(d))
                      hi == MaxOf(v, First(d), Final(d))
                  IN \A h \in 0..23 : Near(Hour(v, d, h), (lo + hi) \div 2 + MulDiv((hi - lo) \div 2, CosU(HOUR * (h - top)), M6), tol)
\* the value depends on month, hour and wet or dry day only
ByCategory(v, month, wet) ==
  \A d \in 1..Len(month), x \in 1..Len(month) : (month[d] = month[x] /\ wet[d] = wet[x]) =>
     \A h \in 0..23 : Hour(v, d, h) = Hour(v, x, h)
=============================================================================
