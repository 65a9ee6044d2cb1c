---------------------------- MODULE RadiationTrace --------------------------
(* C13, C14: recorded radiation disaggregations and calibrations.            *)
EXTENDS TraceKit, Radiation

N(e) == Len(e.month)
PotDay(e, d) == [h \in 1..24 |-> IF e.m = "mean_course" THEN e.course[e.month[d]][h] ELSE e.pot[24 * (d - 1) + h]]
\* NA-valued result of a negative range is not judged: marker BIG
Daily(e, d, mean, r2, mr) ==
  CASE e.m \in {"pot_rad", "mean_course"} -> e.glob[d]
    [] e.m = "pot_rad_via_ssd" -> Angstroem(e.a[e.month[d]], e.b[e.month[d]], e.ssd[d], e.dlen[d], mean)
    [] e.m = "pot_rad_via_bc" -> IF ~IsNA(r2[d]) /\ r2[d] < 0 THEN BIG
                                 ELSE BristowCampbell(e.A[e.month[d]], e.C[e.month[d]], r2[d], mr[e.month[d]], mean)
DayBad(e, d, r2, mr) ==
  LET pot == TLCEval(PotDay(e, d))
      mean == TLCEval(PotMean(pot))
      g == TLCEval(Daily(e, d, mean, r2, mr))
      v(h) == e.out[24 * (d - 1) + h]
      rel == IF e.m = "pot_rad_via_ssd" /\ e.dlen[d] < 500000 THEN 300 ELSE IF e.m = "pot_rad" \/ e.m = "mean_course" THEN 200000 ELSE 20000
      \* the share of the potential radiation is known to 10^-6 only
      tol(h, w) == 4 + (IF e.m = "pot_rad_via_bc" THEN pot[h] \div 250000 ELSE 0) + (IF mean = 0 THEN 0 ELSE (2 * (w \div mean)) + (g \div mean) + (pot[h] \div mean)) + w \div rel
  IN IF g = BIG \/ (~IsNA(g) /\ mean > 0 /\ g \div mean > 50) THEN {}
     ELSE Req("hour follows the potential course",
            \A h \in 1..24 : LET w == Hour(pot[h], mean, g) IN
               IF IsNA(w) THEN IsNA(v(h))
               ELSE /\ IsVal(v(h))
                    /\ \/ Near(v(h), w, tol(h, w)) /\ v(h) >= DROP - 1
                       \/ v(h) = 0 /\ w <= DROP + tol(h, w))
          \cup Req("dark hours stay dark", IsNA(g) \/ \A h \in 1..24 : pot[h] = 0 => v(h) = 0)
          \cup Req("not negative", \A h \in 1..24 : IsNA(v(h)) \/ v(h) >= 0)
          \cup Req("daily mean kept", (IsNA(g) \/ mean < 1000) \/ (\A h \in 1..24 : IsVal(v(h))) =>
                     (IsNA(g) \/ mean < 1000 \/ Near(Sum([h \in 1..24 |-> v(h)]), 24 * g, 24 * DROP + 200 + MulDiv(24 * g, 1, IF rel < 20000 THEN rel ELSE 5000))))
Disagg(e) ==
  IF e.exc # "" THEN {"call failed"}
  ELSE IF Len(e.out) # 24 * N(e) THEN {"number of hours"}
  ELSE LET r2 == TLCEval([d \in 1..N(e) |-> Range2(e.tmin, e.tmax, d)])
           mr == TLCEval([m \in 1..12 |-> MonthRange(r2, e.month, m)])
       IN UNION {DayBad(e, d, r2, mr) : d \in 1..N(e)}

\* the daily models called on their own; days without e.there are absent from the series
Model(e) ==
  IF e.exc # "" THEN {"call failed"}
  ELSE LET r2 == TLCEval([d \in 1..N(e) |-> Range2(e.tmin, e.tmax, d)])
           mr == TLCEval([m \in 1..12 |-> MonthRange(r2, e.month, m)])
       IN Req("one value for every day of the input", e.rows = Sum(e.there) /\ e.foreign = 0)
          \cup Req("daily radiation of the model",
             \A d \in 1..N(e) : e.there[d] = 1 =>
                LET g == Daily(e, d, e.potd[d], r2, mr)
                IN g = BIG \/ (IF IsNA(g) THEN IsNA(e.out[d]) ELSE IsVal(e.out[d]) /\ Near(e.out[d], g, 20 + g \div (IF e.dlen[d] < 500000 THEN 300 ELSE 10000))))
(* ----------------------------- calibration ------------------------------- *)
GroupOf(how, m) == CASE how = "all" -> 1..12
                     [] how = "monthly" -> {m}
                     [] how = "seasonal" -> CHOOSE G \in {{3, 4, 5}, {6, 7, 8}, {9, 10, 11}, {12, 1, 2}} : m \in G
Groups(how) == {GroupOf(how, m) : m \in 1..12}
DaysIn(e, G) == {d \in 1..N(e) : e.month[d] \in G}
\* normal equations of the least-squares fit, radiation in 10^-1 W/m2, parameters 10^6
AngBad(e, G) ==
  LET m == CHOOSE x \in G : TRUE
      S == {d \in DaysIn(e, G) : ~IsNA(e.ssd[d]) /\ ~IsNA(e.obs[d]) /\ e.dlen[d] > 0}
      x1 == TLCEval([d \in S |-> RDiv(e.potd[d], 1000)])
      x2 == TLCEval([d \in S |-> MulDiv(e.potd[d] \div 10, 5000 * e.ssd[d], e.dlen[d]) \div 10000])   \* pot * ssd / day length, same unit
      res == TLCEval([d \in S |-> RDiv(e.obs[d], 100) - MulDiv(x1[d], e.fa[m], 100000) - MulDiv(x2[d], e.fb[m], 100000)])  \* 10^-2 W/m2
      r1 == SumOf([d \in S |-> TDiv(res[d] * x1[d], 1000)], S)
      r2 == SumOf([d \in S |-> TDiv(res[d] * x2[d], 1000)], S)
      n1 == SumOf([d \in S |-> (x1[d] * x1[d]) \div 1000], S)
      n2 == SumOf([d \in S |-> (x2[d] * x2[d]) \div 1000], S)
  IN IF Cardinality(S) < 2
     THEN Req("group without days keeps the parameters", (e.fa[m] = 250000 /\ e.fb[m] = 750000) \/ (e.fa[m] = e.da[m] /\ e.fb[m] = e.db[m]))
     ELSE Req("Angstroem fit is the least-squares solution",
        Abs(r1) <= 300 + (n1 \div 100) + 10 * Cardinality(S) /\ Abs(r2) <= 300 + (n2 \div 100) + 10 * Cardinality(S))
\* mean bias of the Bristow-Campbell model over the group's days with known neighbours
BCFit(e, G) ==
  LET m == CHOOSE x \in G : TRUE
      K == {d \in DaysIn(e, G) : ~IsNA(e.tmin[d]) /\ ~IsNA(e.tmax[d]) /\ ~IsNA(e.obs[d])}
      top == CHOOSE d \in K : \A x \in K : x <= d
      r2 == TLCEval([d \in 1..N(e) |-> IF d \notin K THEN NA
               ELSE IF d = top THEN 2 * (e.tmax[d] - e.tmin[d])
               ELSE IF d + 1 \in K THEN (e.tmax[d] - e.tmin[d]) + (e.tmax[d] - e.tmin[d + 1]) ELSE NA])
      mr == TLCEval([x \in G |-> MonthRange(r2, e.month, x)])
      S == {d \in K : ~IsNA(r2[d]) /\ r2[d] >= 0}
      \* 10^-2 W/m2
      mod == TLCEval([d \in S |-> RDiv(MulDiv(e.potd[d], MulDiv(e.fA[m], BCShare(r2[d], mr[e.month[d]], RDiv(e.fC[m], 100)), M6), M6), 100)])
      bias == SumOf([d \in S |-> mod[d] - RDiv(e.obs[d], 100)], S)
      tot == SumOf([d \in S |-> RDiv(e.obs[d], 100)], S)
  \* a handful of days also allows remote parameters (A beyond 100) whose product is not resolved here
  IN IF S = {} \/ e.fA[m] > 100000000 THEN {} ELSE Req("Bristow-Campbell fit removes the mean bias", Abs(bias) <= (tot \div 200) + 30 * Cardinality(S))
BCBad(e, G) ==
  LET m == CHOOSE x \in G : TRUE
  IN IF \A d \in DaysIn(e, G) : IsNA(e.tmin[d]) \/ IsNA(e.tmax[d]) \/ IsNA(e.obs[d])
     THEN Req("group without days keeps the parameters", (e.fA[m] = 750000 /\ e.fC[m] = 2400000) \/ (e.fA[m] = e.dA[m] /\ e.fC[m] = e.dC[m]))
     ELSE BCFit(e, G)
Shared(f, G) == \A x \in G, y \in G : f[x] = f[y]
Fit(e) ==
  IF e.exc # "" THEN {"calibration failed"}
  ELSE UNION {
     (IF e.hasSsd = 1
      THEN Req("months of a group share the parameters", Shared(e.fa, G) /\ Shared(e.fb, G)) \cup AngBad(e, G)
      ELSE Req("model without data keeps its parameters", \A x \in G : e.fa[x] = e.da[x] /\ e.fb[x] = e.db[x]))
     \cup (IF e.hasT = 1
      THEN Req("months of a group share the parameters", Shared(e.fA, G) /\ Shared(e.fC, G)) \cup BCBad(e, G)
      ELSE Req("model without data keeps its parameters", \A x \in G : e.fA[x] = e.dA[x] /\ e.fC[x] = e.dC[x]))
     : G \in Groups(e.how)}

Judge(e) == CASE e.op = "rad" -> Disagg(e) [] e.op = "fit" -> Fit(e)
              [] e.op = "model" -> Model(e)
              [] e.op = "rejected" -> Req("invalid arguments are rejected", e.exc # "")
              [] OTHER -> {"unknown event"}
Init == Start(0)
Next == More /\ Consume(0, IF Cur.op = "crash" THEN {} ELSE Judge(Cur))
=============================================================================
