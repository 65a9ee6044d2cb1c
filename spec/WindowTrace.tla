----------------------------- MODULE WindowTrace ----------------------------
(* C27: a run over all days (base) and runs over parts of them.              *)
EXTENDS TraceKit, Window

\* tr.per values per day (24 hours, or the sun times of a day)
Judge(e, tr) ==
  IF e.exc # "" THEN {"call failed"}
  ELSE IF Len(e.out) # tr.per * (e.b - e.a + 1) THEN {"number of hours"}
  ELSE LET off == tr.per * (e.a - 1) IN
     UNION {LET d == ((k - 1) \div tr.per) + e.a
                h == IF tr.per = 24 THEN (k - 1) % 24 ELSE 0
            IN IF Kept(tr.m, e.a, e.b, d, h, tr.n, tr.month)
               THEN Req("hour is the same as in the whole series", Same(e.out[k], tr.base[k + off], 1))
               ELSE {}
            : k \in 1..Len(e.out)}
Init == Start(0)
Next == More /\ Consume(0, IF Cur.op = "crash" THEN {} ELSE Judge(Cur, Traces[t]))
=============================================================================
