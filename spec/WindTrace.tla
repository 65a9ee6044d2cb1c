------------------------------ MODULE WindTrace -----------------------------
(* C12: recorded wind disaggregations.                                       *)
EXTENDS TraceKit, Wind

V(e, d, h) == e.out[24 * (d - 1) + h + 1]
Days(e) == 1..Len(e.wind)
Judge(e) ==
  IF e.op = "rejected" THEN Req("invalid arguments are rejected", e.exc # "")
  ELSE IF e.exc # "" THEN {"call failed"}
  ELSE IF Len(e.out) # 24 * Len(e.wind) THEN {"number of hours"}
  ELSE CASE e.op = "equal" -> Req("daily mean in every hour", \A d \in Days(e), h \in 0..23 : Same(V(e, d, h), e.wind[d], 1))
    [] e.op = "cosine" ->
         Req("cosine course", \A d \in Days(e), h \in 0..23 : Same(V(e, d, h), Cosine(e.wind[d], h, e.a, e.b, e.shift), 4 + (Abs(e.wind[d]) \div 150000)))
         \cup Req("daily average", \A d \in Days(e) : IsVal(e.wind[d]) =>
                Near(Sum([h \in 1..24 |-> V(e, d, h - 1)]), 24 * MulDiv(e.wind[d], e.b, 10000), 60))
    [] e.op = "random" ->   \* factors: hourly value / daily mean (10^6); calm and missing days carry the value itself
         Req("missing day", \A d \in Days(e), h \in 0..23 : IsNA(e.wind[d]) => IsNA(V(e, d, h)))
         \cup Req("calm day", \A d \in Days(e), h \in 0..23 : e.wind[d] = 0 => V(e, d, h) = 0)
         \cup Req("finite and not negative", \A d \in Days(e), h \in 0..23 : ~IsNA(e.wind[d]) => IsVal(V(e, d, h)) /\ V(e, d, h) >= 0)
    [] e.op = "sample" ->   \* many factors of one long calm-free series
         UNION {LET c == Cardinality({i \in 1..Len(e.out) : e.out[i] <= Quantiles[j][1]})
                IN Req("distribution of the random factors", Plausible(c, Len(e.out), Quantiles[j][2])) : j \in 1..Len(Quantiles)}
         \cup Req("hours differ", \E i \in 2..24 : e.out[i] # e.out[1])
    [] OTHER -> {"unknown event"}
Init == Start(0)
Next == More /\ Consume(0, IF Cur.op = "crash" THEN {} ELSE Judge(Cur))
=============================================================================
