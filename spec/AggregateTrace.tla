---------------------------- MODULE AggregateTrace --------------------------
(* C22: recorded gap counts, trimmed frames and daily aggregates.            *)
EXTENDS TraceKit, Aggregate

Trim(e) ==
  IF e.exc # "" THEN {"call failed"}
  ELSE Req("exactly the rows outside complete days are dropped",
           LET K == TLCEval(Kept(e.times, e.shift))
           IN e.kept = SelectSeq([i \in 1..Len(e.times) |-> i], LAMBDA i : i \in K))
       \cup Req("remaining rows unchanged", e.same = 1)
       \cup Req("input not changed", e.input = 1)

\* e.day[i]: day number of row i (ascending); e.col: hourly values per variable (10^4)
Span(e) == 1 .. (e.day[Len(e.day)] - e.day[1] + 1)
Rows(e, d) == LET S == {i \in 1..Len(e.day) : e.day[i] = e.day[1] + d - 1}
              IN IF S = {} THEN <<1, 0>>
                 ELSE <<CHOOSE a \in S : \A x \in S : a <= x, CHOOSE b \in S : \A x \in S : x <= b>>
Wants(v) == CASE v = "temp" -> {<<"temp", "mean">>, <<"tmin", "min">>, <<"tmax", "max">>}
              [] v = "hum" -> {<<"hum", "mean">>, <<"hum_min", "min">>, <<"hum_max", "max">>}
              [] v = "precip" -> {<<"precip", "sum">>}
              [] v = "ssd" -> {<<"ssd", "hours">>}
              [] OTHER -> {<<v, "mean">>}
Value(how, v, a, b) == CASE how = "mean" -> MeanOf(v, a, b)
                         [] how = "min" -> MinOf(v, a, b)
                         [] how = "max" -> MaxOf(v, a, b)
                         [] how = "sum" -> Total(v, a, b)
                         [] how = "hours" -> RDiv(Total(v, a, b), 60)
Daily(e) ==
  IF e.exc # "" THEN {"call failed"}
  ELSE LET rows == TLCEval([d \in Span(e) |-> Rows(e, d)])
           cols == UNION {{w[1] : w \in Wants(v)} : v \in DOMAIN e.col}
       IN Req("every day once", e.rdays = [d \in Span(e) |-> e.day[1] + d - 1])
          \cup Req("columns", {e.rcols[i] : i \in 1..Len(e.rcols)} = cols)
          \cup (IF ~(cols \subseteq DOMAIN e.res) \/ Len(e.rdays) # Cardinality(Span(e)) THEN {"columns"} ELSE
               UNION {UNION {
                 Req(w[1], \A d \in Span(e) : Same(e.res[w[1]][d], Value(w[2], e.col[v], rows[d][1], rows[d][2]), 1))
                 : w \in Wants(v)} : v \in DOMAIN e.col})
          \cup Req("input not changed", e.input = 1)

Judge(e) == CASE e.op = "gaps" -> IF e.exc # "" THEN {"call failed"} ELSE Req("number of gaps", e.n = Gaps(e.times, e.step))
              [] e.op = "drop" -> Trim(e)
              [] e.op = "daily" -> Daily(e)
              [] e.op = "invalid" -> Req("an invalid frame is reported as an error", e.exc # "" \/ (IsVal(e.n) /\ e.n < 0))
              [] OTHER -> {"unknown event"}
Init == Start(0)
Next == More /\ Consume(0, IF Cur.op = "crash" THEN {} ELSE Judge(Cur))
=============================================================================
