---------------------------- MODULE PipelineTrace ---------------------------
(* C25 and C26: recorded cycles of disaggregation and aggregation.           *)
EXTENDS TraceKit, Pipeline, Humidity

\* e.daily, e.back: columns -> daily values; e.hours, e.again: hourly values of the first and second round (10^4)
Lost(e, d) == \E c \in Inputs[e.m] : IsNA(e.daily[c][d])
Tol(e) == CASE e.var = "glob" -> 120 [] e.var = "precip" -> 4 [] OTHER -> 3
Within01(e, d) == \A k \in First(d)..Final(d) : e.hours[k] > 0 /\ e.hours[k] < 1000000
DayKept(e, d) ==
  IF Lost(e, d) THEN
     IF e.var = "precip" THEN Req("missing day adds up to nothing", e.back.precip[d] = 0)
     ELSE IF e.m \in {"sine_min_max", "hum_kept"} THEN {}
     ELSE UNION {Req("missing day stays missing", IsNA(e.back[w[1]][d])) : w \in Made[e.var]}
  ELSE UNION {Req("daily value comes back: " \o c,
                  IF e.m = "hum_kept" /\ ~Within01(e, d) THEN TRUE ELSE Same(e.back[c][d], e.daily[c][d], Tol(e))) : c \in Keeps[e.m]}
       \cup (IF KeepsRange(e.m) THEN Req("daily range comes back", IsVal(e.back.tmin[d]) /\ IsVal(e.back.tmax[d])
               /\ Near(e.back.tmax[d] - e.back.tmin[d], e.daily.tmax[d] - e.daily.tmin[d], 6)) ELSE {})
       \cup (IF e.m = "hum_equal" THEN Req("equal humidity has no range", e.back.hum_min[d] = e.back.hum_max[d]) ELSE {})
       \cup (IF e.m = "wind_cosine" THEN Req("mean is b times the daily value", Same(e.back.wind[d], MulDiv(e.daily.wind[d], e.b, 10000), 3)) ELSE {})
       \cup (IF e.m = "sine_min_max" /\ d > 1 /\ d < e.n /\ ~Lost(e, d - 1) /\ ~Lost(e, d + 1) THEN
               Req("extremes within those of the day and its neighbours",
                   /\ e.back.tmax[d] >= e.daily.tmax[d] - 3
                   /\ e.back.tmax[d] <= Max2(Max2(e.daily.tmax[d], e.daily.tmax[d - 1]), Max2(e.daily.tmin[d], e.daily.tmin[d + 1])) + 3
                   /\ e.back.tmin[d] >= Min2(Min2(e.daily.tmin[d], e.daily.tmin[d + 1]), Min2(e.daily.tmax[d], e.daily.tmax[d - 1])) - 3) ELSE {})
Cycle(e) ==
  IF e.exc # "" THEN {"call failed"}
  ELSE IF Len(e.hours) # 24 * e.n \/ Len(e.again) # 24 * e.n THEN {"number of hours"}
  ELSE IF ~({w[1] : w \in Made[e.var]} \subseteq DOMAIN e.back) THEN {"columns of the aggregate"}
  ELSE UNION {Req("aggregate of the hours: " \o w[1],
                  Len(e.back[w[1]]) = e.n /\ \A d \in 1..e.n : Same(e.back[w[1]][d], DailyValue(w[2], e.hours, First(d), Final(d)), 13)) : w \in Made[e.var]}
       \cup UNION {DayKept(e, d) : d \in 1..e.n}
       \cup (IF Settles(e.m) THEN Req("another round changes nothing",
               \A d \in 1..e.n : Lost(e, d) \/ \A k \in First(d)..Final(d) : Same(e.again[k], e.hours[k], Tol(e))) ELSE {})

(* e.obs: hourly observations, e.out: the disaggregation of their daily values with the model calibrated on them *)
Follows(e) ==
  CASE e.m \in {"mean_course_min_max", "mean_course_mean"} -> OneCourse(e.obs, e.month, 60)
    [] e.m = "sine_mean" -> CosineDay(e.obs, Len(e.month), e.top, 60)
    [] e.m = "wind_cosine" -> OneProfile(e.obs, [d \in 1..Len(e.month) |-> 1], 60) /\ CosineProfile(e.obs, Len(e.month), 60)
    [] e.m = "rad_mean_course" -> OneProfile(e.obs, e.month, 60)
    [] e.m = "hum_category" -> ByCategory(e.obs, e.month, e.wet)
    [] e.m = "hum_regression" -> \A d \in 1..Len(e.month) :
          LET dew == DewDaily(e.a0, e.a1, MinOf(e.temp, First(d), Final(d)))
          IN \A k \in First(d)..Final(d) : (e.temp[k] >= ZERO) = (dew >= ZERO) /\ Near(e.obs[k], FromDew(dew, e.temp[k]), 400)
    [] e.m = "pot_rad_via_ssd" -> \A d \in 1..Len(e.month) :
          LET f == 100 * e.a[e.month[d]] + MulDiv(100 * e.b[e.month[d]], e.ssd[d], e.len[d])
          IN \A k \in First(d)..Final(d) : Near(e.obs[k], MulDiv(e.pot[k], f, M6), 500)
    [] e.m = "precip_master" -> \A k \in 1..Len(e.obs) : e.obs[k] >= 0
TolBack(e) == CASE e.m \in {"rad_mean_course", "pot_rad_via_ssd"} -> 150
                [] e.m = "hum_regression" -> 50
                [] OTHER -> 12
Reproduce(e) ==
  IF e.exc # "" THEN {"call failed"}
  ELSE IF Len(e.out) # Len(e.obs) THEN {"number of hours"}
  ELSE IF ~Follows(e) THEN {"observations of the recorder do not follow the model"}
  ELSE Req("observations that follow the model come back", \A k \in 1..Len(e.obs) : Same(e.out[k], e.obs[k], TolBack(e)))

Judge(e) == CASE e.op = "cycle" -> Cycle(e)
              [] e.op = "reproduce" -> Reproduce(e)
              [] OTHER -> {"unknown event"}
Init == Start(0)
Next == More /\ Consume(0, IF Cur.op = "crash" THEN {} ELSE Judge(Cur))
=============================================================================
