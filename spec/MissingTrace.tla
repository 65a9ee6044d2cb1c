----------------------------- MODULE MissingTrace ---------------------------
(* C03: a complete run of a method (base) and runs with missing values.      *)
EXTENDS TraceKit, Missing

\* for Bristow-Campbell a missing value changes the mean range of its month
Unchanged(tr, mask, d) ==
  tr.m = "pot_rad_via_bc" =>
     \A x \in mask : tr.month[x[2]] # tr.month[d]
                     /\ (x[1] = "tmin" /\ x[2] > 1 => tr.month[x[2] - 1] # tr.month[d])
\* random draws differ from run to run
Comparable(tr) == tr.m # "wind_random"

Judge(e, tr) ==
  LET N == tr.n
      mask == {<<e.mask[i][1], e.mask[i][2]>> : i \in 1..Len(e.mask)}
  IN IF e.exc # "" THEN {"call failed"}
     ELSE IF Len(e.out) # 24 * N THEN {"number of hours"}
     ELSE UNION {
       LET d == ((k - 1) \div 24) + 1
           h == (k - 1) % 24
           lost == HourMissing(tr.m, mask, d, h, N) \/ (tr.hasT = 1 /\ IsNA(e.t[k]))
           \* at hour 0 the next day has no weight, so both readings are right
           free == tr.m = "hum_linear" /\ h = 0 /\ <<"tmin", d>> \notin mask
       IN IF free THEN {}
          ELSE IF lost THEN Req("hour computed from a missing value is missing", IsNA(e.out[k]))
          ELSE IF ~IsVal(e.out[k]) THEN {"hour with complete input has a value"}
          ELSE IF Comparable(tr) /\ Unchanged(tr, mask, d)
          THEN Req("hour is the same as with complete data", Near(e.out[k], tr.base[k], 1)) ELSE {}
       : k \in 1..(24 * N)}

Init == Start(0)
Next == More /\ Consume(0, IF Cur.op = "crash" THEN {} ELSE Judge(Cur, Traces[t]))
=============================================================================
