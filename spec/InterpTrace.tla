----------------------------- MODULE InterpTrace ----------------------------
(* C23: recorded interpolations of daily readings.  Readings are scaled by   *)
(* 10^4.                                                                     *)
EXTENDS TraceKit, Interp

Linear(e) ==
  IF e.exc # "" THEN {"call failed"}
  ELSE IF Len(e.out) # 24 * e.days \/ e.axis # 1 THEN {"all hours of the days"}
  ELSE LET P == TLCEval(Readings(e.hour, e.col, e.days))
           n == 24 * e.days
       IN Req("readings are kept", \A k \in 1..n : IsNA(P[k]) \/ e.out[k] = P[k])
          \cup Req("hours between readings", \A k \in 1..n : Same(e.out[k], FillArea(P, k, 1, n, e.limit, e.dir, e.area), 2))
\* other methods: only the readings themselves are fixed, and nothing comes from nothing
Other(e) ==
  IF e.exc # "" THEN {"call failed"}
  ELSE IF Len(e.out) # 24 * e.days \/ e.axis # 1 THEN {"all hours of the days"}
  ELSE LET P == TLCEval(Readings(e.hour, e.col, e.days))
           n == 24 * e.days
       IN Req("readings are kept", \A k \in 1..n : IsNA(P[k]) \/ Near(e.out[k], P[k], 2))
          \cup Req("hours far from readings stay missing",
                 \A k \in 1..n : (\E a \in 1..n : ~IsNA(P[a]) /\ Abs(a - k) <= e.limit) \/ IsNA(e.out[k]))
Judge(e) == CASE e.op = "linear" -> Linear(e)
              [] e.op = "other" -> Other(e)
              [] OTHER -> {"unknown event"}
Init == Start(0)
Next == More /\ Consume(0, IF Cur.op = "crash" THEN {} ELSE Judge(Cur))
=============================================================================
