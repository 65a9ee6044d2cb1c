----------------------------- MODULE AbsenceTrace ---------------------------
(* C29: the same series with unknown days as missing values and without rows.*)
EXTENDS TraceKit, Absence

Close(a, b) == Same(a, b, 2)
Judge(e, kind) ==
  IF e.op = "days" THEN
       IF e.exc # e.exc0 THEN {"one of the calls failed"}
       ELSE IF e.exc # "" THEN {"call failed"}
       ELSE Req("unknown days are the same with and without rows: " \o e.m, Len(e.base) = e.per * Len(kind) /\ SameResult(kind, e.base, e.out, e.per, Close))
  ELSE IF e.op = "summary" THEN       \* calibration and aggregation: one result for the whole series
       IF e.exc # e.exc0 THEN {"one of the calls failed"}
       ELSE IF e.exc # "" THEN {"call failed"}
       ELSE Req("summaries are the same with and without rows: " \o e.m, Len(e.base) = Len(e.out) /\ \A i \in 1..Len(e.base) : Same(e.base[i], e.out[i], e.tol))
  ELSE {"unknown event"}
Init == Start(0)
Next == More /\ Consume(0, IF Cur.op = "crash" THEN {} ELSE Judge(Cur, Traces[t].kind))
=============================================================================
