---------------------------- MODULE HumidityTrace ---------------------------
(* C10, C11: recorded humidity disaggregations and conversions.              *)
EXTENDS TraceKit, Humidity

Tol == 60
\* unlimited humidity of hour h of day d
Raw(e, dew, d, h) ==
  LET k == 24 * (d - 1) + h + 1
      air == e.t[k]
  IN CASE e.m = "equal" -> e.hum[d]
       [] e.m \in {"minimal", "dewpoint_regression"} -> FromDew(dew[d], air)
       [] e.m = "linear_dewpoint_variation" -> FromDew(DewAt(dew, d, h, e.kr), air)
       [] e.m = "min_max" -> MinMaxHum(e.hmin[d], e.hmax[d], e.tmin[d], e.tmax[d], air)
       [] e.m = "month_hour_precip_mean" -> e.table[e.month[d]][h + 1][IF ~IsNA(e.precip[d]) /\ e.precip[d] > 0 THEN 2 ELSE 1]
DewSeq(e) == CASE e.m = "minimal" -> e.tmin
               [] e.m \in {"dewpoint_regression", "linear_dewpoint_variation"} -> [d \in 1..Len(e.tmin) |-> DewDaily(e.a0, e.a1, e.tmin[d])]
               [] OTHER -> <<>>
Close(a, b, tol) == IF b = BIG THEN a = HMAX ELSE Same(a, b, tol)
DayBad(e, dew, d) ==
  LET day == TLCEval([h \in 1..24 |-> Raw(e, dew, d, h - 1)])
      got == [h \in 1..24 |-> e.out[24 * (d - 1) + h]]
      want == TLCEval(IF e.keep = 1 THEN Preserve(day, e.hum[d]) ELSE day)
      \* a mean of values far above 100 is known less precisely
      tol == TLCEval(Tol + (IF e.keep = 1 THEN SeqMax([h \in 1..24 |-> IF IsVal(day[h]) THEN day[h] \div 20000 ELSE 0]) ELSE 0))
  IN \* a raw value beyond the representable range cannot be averaged: only the limits are judged
     IF e.keep = 1 /\ \E h \in 1..24 : day[h] = BIG
     THEN Req("within 0..100", \A h \in 1..24 : IsNA(got[h]) \/ got[h] \in 0..HMAX)
     ELSE Req("hourly humidity", \A h \in 1..24 : Close(got[h], IF want[h] = BIG THEN BIG ELSE Clip(want[h]), tol))
          \cup Req("within 0..100", \A h \in 1..24 : IsNA(got[h]) \/ got[h] \in 0..HMAX)
          \cup Req("observed mean kept", (e.keep = 1 /\ ~IsNA(e.hum[d]) /\ \A h \in 1..24 : IsNA(got[h]) \/ got[h] \in 1..(HMAX - 1))
                      => (AllNA(got) \/ Near(DayMean(got), e.hum[d], Tol)))
Disagg(e) ==
  IF e.exc # "" THEN {"call failed"}
  ELSE IF Len(e.out) # 24 * Len(e.hum) THEN {"number of hours"}
  ELSE LET dew == TLCEval(DewSeq(e)) IN UNION {DayBad(e, dew, d) : d \in 1..Len(e.hum)}

\* vapour pressure (10^6 * e / 6.112) and dew point of single readings
Convert(e) ==
  IF e.exc # "" THEN {"call failed"}
  ELSE UNION {
    Req("vapour pressure", Same(e.vp[i], IF IsNA(e.t[i]) \/ IsNA(e.hum[i]) THEN NA ELSE Vapour(e.t[i], e.hum[i]),
          10 + (IF IsVal(e.vp[i]) THEN Abs(e.vp[i]) \div 50000 ELSE 0)))
    \cup (IF IsNA(e.t[i]) \/ IsNA(e.hum[i]) THEN Req("dew point of a missing reading", IsNA(e.td[i]))
          ELSE IF ~IsVal(e.td[i]) THEN {"dew point is a value"}
          ELSE Req("dew point inverts vapour pressure",
                 Near(Exp(BranchExp(e.t[i], e.td[i]) - BranchExp(e.t[i], e.t[i])), e.hum[i], 60))
               \cup Req("dew point not above temperature", e.hum[i] <= HMAX => e.td[i] <= e.t[i] + 1))
    : i \in 1..Len(e.t)}

Judge(e) == CASE e.op = "hum" -> Disagg(e)
              [] e.op = "convert" -> Convert(e)
              [] e.op = "rejected" -> Req("invalid arguments are rejected", e.exc # "")
              [] OTHER -> {"unknown event"}
Init == Start(0)
Next == More /\ Consume(0, IF Cur.op = "crash" THEN {} ELSE Judge(Cur))
=============================================================================
