---------------------------- MODULE PrecipTrace ----------------------------
(* C02: conservation of the daily totals by all precipitation methods.       *)
(* One event is one call: the daily totals (each with its own power-of-ten   *)
(* scale), and per day the list of sub-daily amounts in the same scale.      *)
EXTENDS TraceKit

\* amounts of one day against its total; tol absorbs the quantisation
Day(total, amounts, per) ==
  IF Len(amounts) # per THEN {"number of time steps"}
  ELSE IF IsNA(total) THEN Req("missing day is missing", AllNA(amounts))
  ELSE IF ~AllVals(amounts) THEN {"finite amounts"}
  ELSE IF total = 0 THEN Req("dry day stays dry", \A i \in 1..per : amounts[i] = 0)
  ELSE Req("amounts are not negative", \A i \in 1..per : amounts[i] >= -1)
       \cup IF \E i \in 1..per : amounts[i] > total + 200 THEN {"amount exceeds the daily total"}
            ELSE Req("amounts sum to the daily total", Near(Sum(amounts), total, per + 200))

\* every time step gets the same share
Equal(total, amounts) ==
  IF IsNA(total) THEN {}
  ELSE Req("equal shares", \A i \in 1..Len(amounts) : Near(amounts[i], RDiv(total, Len(amounts)), 20))

\* hour h gets total * m[h] / sum(m); a dry or missing master day means equal shares
Master(total, m, amounts) ==
  LET s == Sum([i \in 1..Len(m) |-> IF IsNA(m[i]) THEN 0 ELSE m[i]])
  IN IF IsNA(total) THEN {}
     ELSE IF s = 0 THEN Equal(total, amounts)
     ELSE Req("master distribution", \A i \in 1..Len(m) : Near(amounts[i], MulDiv(total, m[i], s), 20))

\* the caller may ask not to distribute the total of a day on which the master is dry
Dropped(e, d) == e.op = "master" /\ e.uniform = 0 /\ ~IsNA(e.days[d]) /\ \A i \in 1..Len(e.master[d]) : IsNA(e.master[d][i]) \/ e.master[d][i] = 0
Judge(e) ==
  IF e.exc # "" THEN {"call failed"}
  ELSE IF Len(e.out) # Len(e.days) THEN {"days in the result"}
  ELSE Req("no other days", e.extra = 0) \cup
       LET b == UNION {IF Dropped(e, d) THEN Day(0, e.out[d], e.per) ELSE Day(e.days[d], e.out[d], e.per) : d \in 1..Len(e.days)}
       IN IF b # {} THEN b
          ELSE CASE e.op = "equal"  -> UNION {Equal(e.days[d], e.out[d]) : d \in 1..Len(e.days)}
                 [] e.op = "master" -> UNION {IF Dropped(e, d) THEN {} ELSE Master(e.days[d], e.master[d], e.out[d]) : d \in 1..Len(e.days)}
                 [] OTHER -> {}

Init == Start(0)
Next == More /\ Consume(0, IF Cur.op = "crash" THEN {} ELSE Judge(Cur))
=============================================================================
